package ripsrc/pkg/gitrepos
theory discovery.rs

func dirContainsDir
props C22
ensures [C22 found] result1 == 0 ==> result0 == has_dir(dir, sub)
ensures [C22 unclear] (result1 != 0) == unclear(dir, sub)

func IterDir
props C22
ghost W: Walks
requires is_walk(W)
let R = at(W, dir, maxRecursion, old(cb))
ensures [C22 calls] cb == R.calls
ensures [C22 ends] (result == 0) == R.ok
ensures [C22 error] result != 0 && R.err != -1 ==> result == R.err
hint entry: let w0 = at(W, dir, maxRecursion, cb);
loop 1
invariant walk_subs(W, dir, dir_list(dir), $k, maxRecursion, cb) == R
hint loop 1: let l = dir_list(dir); let e = l[$k]; if fi_isdir(e) { let w1 = at(W, sub(dir, fi_name(e)), maxRecursion - 1, cb); }

extern os
func Stat
trusted
ensures result1 == fs_err(name) && result0 == fs_info(name)
func IsNotExist
trusted
ensures result == err_notexist(err)
assume the file system does not change while it is walked, the action included
extern io/fs
func (FileInfo).IsDir
trusted
ensures result == fi_isdir(recv)
func (FileInfo).Name
trusted
ensures result == fi_name(recv)
extern io/ioutil
func ReadDir
trusted
ensures result1 == dir_err(dirname) && (result1 == 0 ==> result0 == dir_list(dirname))
extern path/filepath
func Abs
trusted
ensures result1 == abs_err(path) && (result1 == 0 ==> result0 == path_abs(path))
