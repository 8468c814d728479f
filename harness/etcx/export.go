// Package etcx holds the files of /repo/etc, overlaid when the checks run, with their package clause changed; this
// file gives the harness access to them.
package etcx

func FullSplit(p string) []string                                         { return fullSplit(p) }
func GetRelName(p string, prefix []string) string                         { return getRelName(p, prefix) }
func MakePrefix(p string) []string                                        { return makePrefix(p) }
func Sel(path string, m map[interface{}]interface{}) (interface{}, error) { return sel(path, m) }
