package simioutil

import os "github.com/hymkor/gmnlisp/zz_verif/simos"

func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm os.FileMode) error {
	return os.WriteFile(name, data, perm)
}
