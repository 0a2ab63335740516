package abi

import "io"

type Method struct {
	Name string
	ID   []byte
	Sig  string
}
type ABI struct {
	Constructor Method
	Methods     map[string]Method
}

func JSON(reader io.Reader) (ABI, error)                             { panic("stub") }
func (abi ABI) Pack(name string, args ...interface{}) ([]byte, error) { panic("stub") }
