package crypto

import "github.com/ethereum/go-ethereum/common"

func Keccak256(data ...[]byte) []byte                                                  { panic("stub") }
func Keccak256Hash(data ...[]byte) (h common.Hash)                                     { panic("stub") }
func CreateAddress(b common.Address, nonce uint64) common.Address                      { panic("stub") }
func CreateAddress2(b common.Address, salt [32]byte, inithash []byte) common.Address   { panic("stub") }
