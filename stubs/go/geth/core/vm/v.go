package vm

import (
	"errors"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/stateless"
	"github.com/ethereum/go-ethereum/core/tracing"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/trie/utils"
	"github.com/holiman/uint256"
)

var (
	ErrOutOfGas                 = errors.New("out of gas")
	ErrCodeStoreOutOfGas        = errors.New("contract creation code storage out of gas")
	ErrDepth                    = errors.New("max call depth exceeded")
	ErrInsufficientBalance      = errors.New("insufficient balance for transfer")
	ErrContractAddressCollision = errors.New("contract address collision")
	ErrExecutionReverted        = errors.New("execution reverted")
	ErrMaxCodeSizeExceeded      = errors.New("max code size exceeded")
	ErrMaxInitCodeSizeExceeded  = errors.New("max initcode size exceeded")
	ErrInvalidJump              = errors.New("invalid jump destination")
	ErrWriteProtection          = errors.New("write protection")
	ErrReturnDataOutOfBounds    = errors.New("return data out of bounds")
	ErrGasUintOverflow          = errors.New("gas uint64 overflow")
	ErrInvalidCode              = errors.New("invalid code: must not begin with 0xef")
	ErrNonceUintOverflow        = errors.New("nonce uint64 overflow")
)

type ErrStackUnderflow struct{ x int }

func (e *ErrStackUnderflow) Error() string { panic("stub") }

type ErrStackOverflow struct{ x int }

func (e *ErrStackOverflow) Error() string { panic("stub") }

type ErrInvalidOpCode struct{ x int }

func (e *ErrInvalidOpCode) Error() string { panic("stub") }

type StateDB interface {
	CreateAccount(common.Address)
	CreateContract(common.Address)
	SubBalance(common.Address, *uint256.Int, tracing.BalanceChangeReason)
	AddBalance(common.Address, *uint256.Int, tracing.BalanceChangeReason)
	GetBalance(common.Address) *uint256.Int
	GetNonce(common.Address) uint64
	SetNonce(common.Address, uint64)
	GetCodeHash(common.Address) common.Hash
	GetCode(common.Address) []byte
	SetCode(common.Address, []byte)
	GetCodeSize(common.Address) int
	AddRefund(uint64)
	SubRefund(uint64)
	GetRefund() uint64
	GetCommittedState(common.Address, common.Hash) common.Hash
	GetState(common.Address, common.Hash) common.Hash
	SetState(common.Address, common.Hash, common.Hash)
	GetStorageRoot(addr common.Address) common.Hash
	GetTransientState(addr common.Address, key common.Hash) common.Hash
	SetTransientState(addr common.Address, key, value common.Hash)
	SelfDestruct(common.Address)
	HasSelfDestructed(common.Address) bool
	Selfdestruct6780(common.Address)
	Exist(common.Address) bool
	Empty(common.Address) bool
	AddressInAccessList(addr common.Address) bool
	SlotInAccessList(addr common.Address, slot common.Hash) (addressOk bool, slotOk bool)
	AddAddressToAccessList(addr common.Address)
	AddSlotToAccessList(addr common.Address, slot common.Hash)
	PointCache() *utils.PointCache
	Prepare(rules params.Rules, sender, coinbase common.Address, dest *common.Address, precompiles []common.Address, txAccesses types.AccessList)
	RevertToSnapshot(int)
	Snapshot() int
	AddLog(*types.Log)
	AddPreimage(common.Hash, []byte)
	Witness() *stateless.Witness
}

type (
	CanTransferFunc func(StateDB, common.Address, *uint256.Int) bool
	TransferFunc    func(StateDB, common.Address, common.Address, *uint256.Int)
	GetHashFunc     func(uint64) common.Hash
)

type BlockContext struct {
	CanTransfer CanTransferFunc
	Transfer    TransferFunc
	GetHash     GetHashFunc
	Coinbase    common.Address
	GasLimit    uint64
	BlockNumber *big.Int
	Time        uint64
	Difficulty  *big.Int
	BaseFee     *big.Int
	BlobBaseFee *big.Int
	Random      *common.Hash
}

type TxContext struct {
	Origin     common.Address
	GasPrice   *big.Int
	BlobHashes []common.Hash
	BlobFeeCap *big.Int
}

type ContractRef interface{ Address() common.Address }
type AccountRef common.Address

func (ar AccountRef) Address() common.Address { panic("stub") }

type Contract struct {
	CallerAddress common.Address
	Code          []byte
	CodeHash      common.Hash
	CodeAddr      *common.Address
	Input         []byte
	IsDeployment  bool
	Gas           uint64
	value         *uint256.Int
}

func NewContract(caller ContractRef, object ContractRef, value *uint256.Int, gas uint64) *Contract {
	panic("stub")
}
func (c *Contract) Address() common.Address { panic("stub") }
func (c *Contract) Caller() common.Address  { panic("stub") }
func (c *Contract) Value() *uint256.Int     { panic("stub") }

type Interpreter interface {
	Run(contract *Contract, input []byte, readOnly bool) (ret []byte, err error)
}
type InterpreterFactory func(evm *EVM) Interpreter

type CallInterceptor interface {
	Call(env *EVM, me ContractRef, addr common.Address, data []byte, gas uint64, value *uint256.Int) ([]byte, uint64, error)
	CallCode(env *EVM, me ContractRef, addr common.Address, data []byte, gas uint64, value *uint256.Int) ([]byte, uint64, error)
	DelegateCall(env *EVM, me ContractRef, addr common.Address, data []byte, gas uint64) ([]byte, uint64, error)
	StaticCall(env *EVM, me ContractRef, addr common.Address, input []byte, gas uint64) ([]byte, uint64, error)
	Create(env *EVM, me ContractRef, data []byte, gas uint64, value *uint256.Int) ([]byte, common.Address, uint64, error)
	Create2(env *EVM, me ContractRef, code []byte, gas uint64, value *uint256.Int, salt *uint256.Int) ([]byte, common.Address, uint64, error)
}

type PrecompiledContract interface {
	RequiredGas(input []byte) uint64
	Run(input []byte) ([]byte, error)
}
type PrecompiledStateContract interface {
	Run(stateDB StateDB, blockCtx BlockContext, txCtx TxContext, caller common.Address, input []byte, suppliedGas uint64) ([]byte, uint64, error)
}

type Config struct {
	NoBaseFee        bool
	ExtraEips        []int
	Interpreter      InterpreterFactory
	StatePrecompiles map[common.Address]PrecompiledStateContract
}

type EVM struct {
	Context BlockContext
	TxContext
	StateDB         StateDB
	CallInterceptor CallInterceptor
	Config          Config
	x               int
}

func NewEVM(blockCtx BlockContext, txCtx TxContext, statedb StateDB, chainConfig *params.ChainConfig, config Config) *EVM {
	panic("stub")
}
func (evm *EVM) Interpreter() Interpreter         { panic("stub") }
func (evm *EVM) ChainConfig() *params.ChainConfig { panic("stub") }
func (evm *EVM) GetDepth() int                    { panic("stub") }
func (evm *EVM) SetDepth(d int)                   { panic("stub") }
func (evm *EVM) Cancel()                          { panic("stub") }
func (evm *EVM) Call(caller ContractRef, addr common.Address, input []byte, gas uint64, value *uint256.Int) (ret []byte, leftOverGas uint64, err error) {
	panic("stub")
}
func (evm *EVM) CallCode(caller ContractRef, addr common.Address, input []byte, gas uint64, value *uint256.Int) (ret []byte, leftOverGas uint64, err error) {
	panic("stub")
}
func (evm *EVM) DelegateCall(caller ContractRef, addr common.Address, input []byte, gas uint64) (ret []byte, leftOverGas uint64, err error) {
	panic("stub")
}
func (evm *EVM) StaticCall(caller ContractRef, addr common.Address, input []byte, gas uint64) (ret []byte, leftOverGas uint64, err error) {
	panic("stub")
}
func (evm *EVM) Create(caller ContractRef, code []byte, gas uint64, value *uint256.Int) (ret []byte, contractAddr common.Address, leftOverGas uint64, err error) {
	panic("stub")
}
func (evm *EVM) Create2(caller ContractRef, code []byte, gas uint64, endowment *uint256.Int, salt *uint256.Int) (ret []byte, contractAddr common.Address, leftOverGas uint64, err error) {
	panic("stub")
}

type Status int

const (
	Running Status = iota
	Reverted
	Stopped
	Failed
)

type InterpreterState struct {
	Contract           *Contract
	Status             Status
	Input              []byte
	ReadOnly           bool
	Stack              *Stack
	Memory             *Memory
	Pc                 uint64
	Error              error
	LastCallReturnData []byte
	ReturnData         []byte
}
type EVMInterpreter struct{ x int }

func (in *EVMInterpreter) Run(contract *Contract, input []byte, readOnly bool) (ret []byte, err error) {
	panic("stub")
}
func (in *EVMInterpreter) Step(state *InterpreterState) { panic("stub") }

type Stack struct{ data []uint256.Int }

func NewStack() *Stack                      { panic("stub") }
func (st *Stack) Data() []uint256.Int       { panic("stub") }
func (st *Stack) Push(d *uint256.Int)       { panic("stub") }
func (st *Stack) Len() int                  { panic("stub") }
func (st *Stack) Peek() *uint256.Int        { panic("stub") }

type Memory struct{ store []byte }

func NewMemory() *Memory                                  { panic("stub") }
func (m *Memory) Set(offset, size uint64, value []byte)   { panic("stub") }
func (m *Memory) Resize(size uint64)                      { panic("stub") }
func (m *Memory) Len() int                                { panic("stub") }
func (m *Memory) Data() []byte                            { panic("stub") }
func MemoryGasCost(mem *Memory, newMemSize uint64) (uint64, error) { panic("stub") }

var (
	PrecompiledContractsIstanbul map[common.Address]PrecompiledContract
	PrecompiledContractsBerlin   map[common.Address]PrecompiledContract
	PrecompiledContractsCancun   map[common.Address]PrecompiledContract
	PrecompiledAddressesIstanbul []common.Address
	PrecompiledAddressesBerlin   []common.Address
	PrecompiledAddressesCancun   []common.Address
)

func ActivePrecompiles(rules params.Rules) []common.Address { panic("stub") }
