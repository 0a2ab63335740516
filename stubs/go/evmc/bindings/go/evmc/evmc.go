// Stub of the EVMC Go bindings with Tosca's stepping extension (declarations only).
package evmc

import "unsafe"

type Address [20]byte
type Hash [32]byte

type Error int32

func (err Error) IsInternalError() bool { panic("stub") }
func (err Error) Error() string         { panic("stub") }

const (
	Failure = Error(1)
	Revert  = Error(2)
)

type Revision int32

const (
	Frontier Revision = iota
	Homestead
	TangerineWhistle
	SpuriousDragon
	Byzantium
	Constantinople
	Petersburg
	Istanbul
	Berlin
	London
	Paris
	Shanghai
	Cancun
	Prague
	MaxRevision             = Prague
	LatestStableRevision    = Paris
)

type CallKind int

const (
	Call CallKind = iota
	DelegateCall
	CallCode
	Create
	Create2
)

type AccessStatus int

const (
	ColdAccess AccessStatus = iota
	WarmAccess
)

type StorageStatus int

const (
	StorageAssigned StorageStatus = iota
	StorageAdded
	StorageDeleted
	StorageModified
	StorageDeletedAdded
	StorageModifiedDeleted
	StorageDeletedRestored
	StorageAddedDeleted
	StorageModifiedRestored
)

type TxContext struct {
	GasPrice    Hash
	Origin      Address
	Coinbase    Address
	Number      int64
	Timestamp   int64
	GasLimit    int64
	PrevRandao  Hash
	ChainID     Hash
	BaseFee     Hash
	BlobBaseFee Hash
	BlobHashes  []Hash
}

type HostContext interface {
	AccountExists(addr Address) bool
	GetStorage(addr Address, key Hash) Hash
	SetStorage(addr Address, key Hash, value Hash) StorageStatus
	GetBalance(addr Address) Hash
	GetCodeSize(addr Address) int
	GetCodeHash(addr Address) Hash
	GetCode(addr Address) []byte
	Selfdestruct(addr Address, beneficiary Address) bool
	GetTxContext() TxContext
	GetBlockHash(number int64) Hash
	EmitLog(addr Address, topics []Hash, data []byte)
	Call(kind CallKind,
		recipient Address, sender Address, value Hash, input []byte, gas int64, depth int,
		static bool, salt Hash, codeAddress Address) (output []byte, gasLeft int64, gasRefund int64,
		createAddr Address, err error)
	AccessAccount(addr Address) AccessStatus
	AccessStorage(addr Address, key Hash) AccessStatus
	GetTransientStorage(addr Address, key Hash) Hash
	SetTransientStorage(addr Address, key Hash, value Hash)
}

type Result struct {
	Output    []byte
	GasLeft   int64
	GasRefund int64
}

type VM struct{ handle *int }

func Load(filename string) (vm *VM, err error)              { panic("stub") }
func LoadAndConfigure(config string) (vm *VM, err error)    { panic("stub") }
func (vm *VM) Destroy()                                     { panic("stub") }
func (vm *VM) Name() string                                 { panic("stub") }
func (vm *VM) Version() string                              { panic("stub") }
func (vm *VM) GetHandle() unsafe.Pointer                           { panic("stub") }
func (vm *VM) SetOption(name string, value string) (err error) { panic("stub") }
func (vm *VM) Execute(ctx HostContext, rev Revision,
	kind CallKind, static bool, depth int, gas int64,
	recipient Address, sender Address, input []byte, value Hash, codeHash *Hash,
	code []byte) (res Result, err error) {
	panic("stub")
}

type StepStatus int

const (
	Running StepStatus = iota
	Stopped
	Returned
	Reverted
	Failed
)

type StepParameters struct {
	Context        HostContext
	Revision       Revision
	Kind           CallKind
	Static         bool
	Depth          int
	Gas            int64
	GasRefund      int64
	Recipient      Address
	Sender         Address
	Input          []byte
	LastCallResult []byte
	Value          Hash
	CodeHash       *Hash
	Code           []byte
	StepStatusCode StepStatus
	Pc             uint64
	Stack          []byte
	Memory         []byte
	NumSteps       int
}

type StepResult struct {
	StepStatusCode     StepStatus
	StatusCode         Error
	Revision           Revision
	Pc                 uint64
	GasLeft            int64
	GasRefund          int64
	Output             []byte
	Stack              []byte
	Memory             []byte
	LastCallReturnData []byte
}

type VMSteppable struct{ handle *int }

func LoadSteppable(filename string) (vm *VMSteppable, err error)         { panic("stub") }
func (vm *VMSteppable) Destroy()                                         { panic("stub") }
func (vm *VMSteppable) SetOption(name string, value string) (err error)  { panic("stub") }
func (vm *VMSteppable) StepN(params StepParameters) (res StepResult, err error) {
	panic("stub")
}
