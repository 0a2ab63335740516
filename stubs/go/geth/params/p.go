package params

import "math/big"

type ChainConfig struct {
	ChainID                       *big.Int
	HomesteadBlock                *big.Int
	DAOForkBlock                  *big.Int
	DAOForkSupport                bool
	EIP150Block                   *big.Int
	EIP155Block                   *big.Int
	EIP158Block                   *big.Int
	ByzantiumBlock                *big.Int
	ConstantinopleBlock           *big.Int
	PetersburgBlock               *big.Int
	IstanbulBlock                 *big.Int
	MuirGlacierBlock              *big.Int
	BerlinBlock                   *big.Int
	LondonBlock                   *big.Int
	ArrowGlacierBlock             *big.Int
	GrayGlacierBlock              *big.Int
	MergeNetsplitBlock            *big.Int
	ShanghaiTime                  *uint64
	CancunTime                    *uint64
	PragueTime                    *uint64
	VerkleTime                    *uint64
	TerminalTotalDifficulty       *big.Int
	TerminalTotalDifficultyPassed bool
}

func (c *ChainConfig) Rules(num *big.Int, isMerge bool, timestamp uint64) Rules { panic("stub") }
func (c *ChainConfig) IsCancun(num *big.Int, time uint64) bool                  { panic("stub") }
func (c *ChainConfig) IsShanghai(num *big.Int, time uint64) bool                { panic("stub") }
func (c *ChainConfig) IsLondon(num *big.Int) bool                               { panic("stub") }
func (c *ChainConfig) IsBerlin(num *big.Int) bool                               { panic("stub") }
func (c *ChainConfig) IsIstanbul(num *big.Int) bool                             { panic("stub") }

type Rules struct {
	ChainID                                                 *big.Int
	IsHomestead, IsEIP150, IsEIP155, IsEIP158               bool
	IsEIP2929, IsEIP4762                                    bool
	IsByzantium, IsConstantinople, IsPetersburg, IsIstanbul bool
	IsBerlin, IsLondon                                      bool
	IsMerge, IsShanghai, IsCancun, IsPrague                 bool
	IsVerkle                                                bool
}

var AllEthashProtocolChanges = &ChainConfig{}
var MainnetChainConfig = &ChainConfig{}

const (
	CallValueTransferGas      uint64 = 9000
	CallNewAccountGas         uint64 = 25000
	TxGas                     uint64 = 21000
	TxGasContractCreation     uint64 = 53000
	TxDataZeroGas             uint64 = 4
	TxDataNonZeroGasFrontier  uint64 = 68
	TxDataNonZeroGasEIP2028   uint64 = 16
	TxAccessListAddressGas    uint64 = 2400
	TxAccessListStorageKeyGas uint64 = 1900
	CallCreateDepth           uint64 = 1024
	CreateDataGas             uint64 = 200
	CreateGas                 uint64 = 32000
	Create2Gas                uint64 = 32000
	MemoryGas                 uint64 = 3
	QuadCoeffDiv              uint64 = 512
	CopyGas                   uint64 = 3
	StackLimit                uint64 = 1024
	SstoreSetGasEIP2200       uint64 = 20000
	SstoreResetGasEIP2200     uint64 = 5000
	SstoreClearsScheduleRefundEIP2200 uint64 = 15000
	InitCodeWordGas           uint64 = 2
	MaxCodeSize                      = 24576
	MaxInitCodeSize                  = 2 * MaxCodeSize
	RefundQuotient            uint64 = 2
	RefundQuotientEIP3529     uint64 = 5
	Keccak256Gas              uint64 = 30
	Keccak256WordGas          uint64 = 6
	LogGas                    uint64 = 375
	LogTopicGas               uint64 = 375
	LogDataGas                uint64 = 8
	SelfdestructRefundGas     uint64 = 24000
	ColdAccountAccessCostEIP2929 uint64 = 2600
	ColdSloadCostEIP2929      uint64 = 2100
	WarmStorageReadCostEIP2929 uint64 = 100
)
