package types

import "github.com/ethereum/go-ethereum/common"

type AccessList []AccessTuple
type AccessTuple struct {
	Address     common.Address
	StorageKeys []common.Hash
}
type Log struct {
	Address     common.Address
	Topics      []common.Hash
	Data        []byte
	BlockNumber uint64
	TxHash      common.Hash
	TxIndex     uint
	BlockHash   common.Hash
	Index       uint
	Removed     bool
}

var EmptyCodeHash common.Hash
var EmptyRootHash common.Hash
