module github.com/ethereum/evmc/v11

go 1.20
