package tracing

type BalanceChangeReason byte

const (
	BalanceChangeUnspecified BalanceChangeReason = iota
	BalanceIncreaseRewardMineUncle
	BalanceIncreaseRewardMineBlock
	BalanceIncreaseWithdrawal
	BalanceIncreaseGenesisBalance
	BalanceIncreaseRewardTransactionFee
	BalanceDecreaseGasBuy
	BalanceIncreaseGasReturn
	BalanceIncreaseDaoContract
	BalanceDecreaseDaoAccount
	BalanceChangeTransfer
	BalanceChangeTouchAccount
	BalanceIncreaseSelfdestruct
	BalanceDecreaseSelfdestruct
	BalanceDecreaseSelfdestructBurn
)
