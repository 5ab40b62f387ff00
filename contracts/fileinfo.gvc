package ripsrc/fileinfo
theory fileinfo.rs

func detect
trusted
ensures result1 == 0 && (result0.id != 0 <==> detected(filename, buf))
assume the license detector (go-license-detector) answers by name and content alone and reports no error

func New
props C19
ensures [C19 fresh] forall|p: Str| !(#[trigger] result.checkFilePathCache.dom().contains(p))

func (*Process).checkFilePathUncached
props C19
ensures [C19,C20 path] result == path_skip(filePath, re_match(ignorePatterns, filePath))

func (*Process).checkFilePath
props C19
requires cache_ok(s.checkFilePathCache, ignorePatterns)
ensures [C19,C20 cached] result == path_skip(filePath, re_match(ignorePatterns, filePath))
ensures [C19,C20 cache] cache_ok(s.checkFilePathCache, ignorePatterns)

func (*Process).GetInfo
props C19
requires cache_ok(s.checkFilePathCache, ignorePatterns)
ensures [C19,C20 reason] result1 == skip_of(args, re_match(licenses, args.FilePath), re_match(ignorePatterns, args.FilePath))
ensures [C19,C20 cache] cache_ok(s.checkFilePathCache, ignorePatterns)
ensures [C20 no language] result1 != str_empty() ==> result0.Language == str_empty()
ensures [C19,C20 language] result1 == str_empty() ==> result0.Language == enry_language(args.FilePath, args.Content) && result0.License.id == 0
ensures [C19 license] result0.License.id != 0 <==> args.Content.len() <= max_size() && re_match(licenses, args.FilePath) && detected(args.FilePath, args.Content)
loop 1
invariant first_long(args.Lines, 0) == first_long(args.Lines, $k)
hint loop 1: let w = args.Lines[$k];

extern gopkg.in/src-d/enry.v1
func IsConfiguration
trusted
ensures result == enry_config(path)
func IsDotFile
trusted
ensures result == enry_dot(path)
func IsVendor
trusted
ensures result == enry_vendor(path)
func GetLanguage
trusted
ensures result == enry_language(filename, content)
assume the language detector (enry) answers by path and content alone
