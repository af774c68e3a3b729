package zzstd

// ReadFile gives the contents of files.
var ReadFile func(name string) ([]byte, error)

func Os_ReadFile(name string) ([]byte, error) { return ReadFile(name) }
