module github.com/ethereum/go-ethereum

go 1.20

require github.com/holiman/uint256 v1.3.1
