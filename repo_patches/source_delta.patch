From b5ada04a10c4a4417d3a5a6f5810e8b376b41671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:51 +0000
Subject: [PATCH 01/21] fix: read cached hash before releasing the lock of the
 LFVM hash cache

---
 go/interpreter/lfvm/hash_cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/lfvm/hash_cache.go b/go/interpreter/lfvm/hash_cache.go
index f6b651d..ee2a617 100644
--- a/go/interpreter/lfvm/hash_cache.go
+++ b/go/interpreter/lfvm/hash_cache.go
@@ -108,8 +108,11 @@ func (h *hashCache[K]) getHash(key K) tosca.Hash {
 			h.head.pred = entry
 			h.head = entry
 		}
+		// The hash must be read before releasing the lock since the entry may
+		// be evicted and reused for another key as soon as the lock is free.
+		hash := entry.hash
 		h.lock.Unlock()
-		return entry.hash
+		return hash
 	}
 
 	// Compute the hash without holding the lock.
-- 
2.43.0


From bb6d2002e8d05b0689804c5b92b26c0fae08cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 02/21] fix: reject out-of-range destinations in lfvm's fused
 SWAP2_SWAP1_POP_JUMP

---
 go/interpreter/lfvm/super_instructions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/interpreter/lfvm/super_instructions.go b/go/interpreter/lfvm/super_instructions.go
index 5ce7b50..bdc9483 100644
--- a/go/interpreter/lfvm/super_instructions.go
+++ b/go/interpreter/lfvm/super_instructions.go
@@ -11,6 +11,7 @@
 package lfvm
 
 import (
+	"math"
 	"math/bits"
 
 	"github.com/holiman/uint256"
@@ -121,6 +122,10 @@ func opSwap2_Swap1_Pop_Jump(c *context) error {
 	top := c.stack.pop()
 	c.stack.pop()
 	trg := c.stack.peek()
+	// overflow check
+	if !trg.IsUint64() || trg.Uint64() > math.MaxInt32 {
+		return errInvalidJump
+	}
 	c.pc = int32(trg.Uint64()) - 1
 	*trg = *top
 	return checkJumpDest(c)
-- 
2.43.0


From 321072c3be365542de6352878943d36873944354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:36 +0000
Subject: [PATCH 03/21] fix: treat EVMC_FAILURE as a failed execution

evmzero reports oversized init code and failed creations as EVMC_FAILURE,
which was turned into an error of the interpreter instead of a failed
contract execution.
---
 go/interpreter/evmc/evmc_interpreter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/interpreter/evmc/evmc_interpreter.go b/go/interpreter/evmc/evmc_interpreter.go
index a0000ae..2e7c753 100644
--- a/go/interpreter/evmc/evmc_interpreter.go
+++ b/go/interpreter/evmc/evmc_interpreter.go
@@ -106,7 +106,8 @@ func (e *EvmcInterpreter) Run(params tosca.Parameters) (tosca.Result, error) {
 		// This is to be processed as a successful execution.
 		res.Success = false // < signal that execution reverted
 		return res, nil
-	case evmc.Error(C.EVMC_OUT_OF_GAS),
+	case evmc.Error(C.EVMC_FAILURE),
+		evmc.Error(C.EVMC_OUT_OF_GAS),
 		evmc.Error(C.EVMC_INVALID_INSTRUCTION),
 		evmc.Error(C.EVMC_UNDEFINED_INSTRUCTION),
 		evmc.Error(C.EVMC_BAD_JUMP_DESTINATION),
-- 
2.43.0


From a14f967a19929a9bd178275528b47da726b8e311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:27 +0000
Subject: [PATCH 04/21] fix: restore the snapshot of a floria frame whenever
 its call or creation fails

Failing state contracts, precompiled contracts and creations rejected by the
rules for deployed code kept the value transfer and the effects of the init
code; the nonce of the created account was set before taking the snapshot.
---
 go/processor/floria/run_context.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 64f6c15..48d7816 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -67,7 +67,6 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}
 
 		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
-		r.SetNonce(createdAddress, 1)
 		recipient = createdAddress
 	}
 
@@ -77,6 +76,10 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 
 	snapshot := r.CreateSnapshot()
 
+	if kind == tosca.Create || kind == tosca.Create2 {
+		r.SetNonce(createdAddress, 1)
+	}
+
 	// StaticCall and DelegateCall do not transfer value
 	if kind != tosca.StaticCall && kind != tosca.DelegateCall {
 		if err := transferValue(r, parameters.Value, parameters.Sender, recipient); err != nil {
@@ -88,11 +91,17 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	output, isStatePrecompiled := handleStateContract(
 		r, parameters.Sender, parameters.Recipient, parameters.Input, parameters.Gas)
 	if isStatePrecompiled {
+		if !output.Success {
+			r.RestoreSnapshot(snapshot)
+		}
 		return output, nil
 	}
 	output, isPrecompiled := handlePrecompiledContract(
 		r.blockParameters.Revision, parameters.Input, recipient, parameters.Gas)
 	if isPrecompiled {
+		if !output.Success {
+			r.RestoreSnapshot(snapshot)
+		}
 		return output, nil
 	}
 
@@ -125,13 +134,16 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	} else if kind == tosca.Create || kind == tosca.Create2 {
 		code := result.Output
 		if len(code) > maxCodeSize {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		if r.blockParameters.Revision >= tosca.R10_London && len(code) > 0 && code[0] == 0xEF {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		createGas := tosca.Gas(len(result.Output) * createGasCostPerByte)
 		if result.GasLeft < createGas {
+			r.RestoreSnapshot(snapshot)
 			return tosca.CallResult{}, nil
 		}
 		result.GasLeft -= createGas
-- 
2.43.0


From 7693692433944f50ff7760eb447a509cd74bdca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:27 +0000
Subject: [PATCH 05/21] fix: select precompiled contracts by code address for
 CALLCODE and DELEGATECALL in floria

---
 go/processor/floria/run_context.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 48d7816..5ebeb42 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -96,8 +96,12 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}
 		return output, nil
 	}
+	codeAddress := recipient
+	if kind == tosca.DelegateCall || kind == tosca.CallCode {
+		codeAddress = parameters.CodeAddress
+	}
 	output, isPrecompiled := handlePrecompiledContract(
-		r.blockParameters.Revision, parameters.Input, recipient, parameters.Gas)
+		r.blockParameters.Revision, parameters.Input, codeAddress, parameters.Gas)
 	if isPrecompiled {
 		if !output.Success {
 			r.RestoreSnapshot(snapshot)
-- 
2.43.0


From e4b5fa218d54d9da04e37824cd5d2aaf24965bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:27 +0000
Subject: [PATCH 06/21] fix: reject oversized init code before charging the
 sender in floria

The transaction was reported as not executed although the sender had paid
for its gas limit.
---
 go/processor/floria/processor.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index d83080c..79ed4f0 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -64,6 +64,11 @@ func (p *processor) Run(
 		return tosca.Receipt{}, nil
 	}
 
+	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
+		len(transaction.Input) > maxInitCodeSize {
+		return tosca.Receipt{}, nil
+	}
+
 	if err := buyGas(transaction, context); err != nil {
 		return tosca.Receipt{}, nil
 	}
@@ -74,11 +79,6 @@ func (p *processor) Run(
 	}
 	gas -= intrinsicGas
 
-	if blockParameters.Revision >= tosca.R12_Shanghai && transaction.Recipient == nil &&
-		len(transaction.Input) > maxInitCodeSize {
-		return tosca.Receipt{}, nil
-	}
-
 	transactionParameters := tosca.TransactionParameters{
 		Origin:     transaction.Sender,
 		GasPrice:   transaction.GasPrice,
-- 
2.43.0


From 1c9bacabc69b4d9fe923ec2d83eb32d9209ee401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:27 +0000
Subject: [PATCH 07/21] fix: consume all gas of failing precompiled contracts
 in floria

---
 go/processor/floria/precompiled.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/precompiled.go b/go/processor/floria/precompiled.go
index 7433356..2dbe7df 100644
--- a/go/processor/floria/precompiled.go
+++ b/go/processor/floria/precompiled.go
@@ -27,9 +27,12 @@ func handlePrecompiledContract(revision tosca.Revision, input tosca.Data, addres
 	}
 	gas -= tosca.Gas(gasCost)
 	output, err := contract.Run(input)
+	if err != nil { // precompiled contracts only return errors on invalid input
+		return tosca.CallResult{}, true
+	}
 
 	return tosca.CallResult{
-		Success: err == nil, // precompiled contracts only return errors on invalid input
+		Success: true,
 		Output:  output,
 		GasLeft: gas,
 	}, true
-- 
2.43.0


From 6aed6cdd4f17789990a5622654522996abbf93f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 08/21] fix: reject transactions whose gas cost exceeds 256
 bits

The cost was reduced modulo 2^256, so such a transaction could be bought for
next to nothing and its refund credited balance nobody had paid.
---
 go/processor/floria/processor.go | 8 +++++++-
 go/processor/opera/processor.go  | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/go/processor/floria/processor.go b/go/processor/floria/processor.go
index 79ed4f0..bfde85d 100644
--- a/go/processor/floria/processor.go
+++ b/go/processor/floria/processor.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 
 	"github.com/Fantom-foundation/Tosca/go/tosca"
+	"github.com/holiman/uint256"
 )
 
 const (
@@ -271,7 +272,12 @@ func setupGasBilling(transaction tosca.Transaction) tosca.Gas {
 }
 
 func buyGas(transaction tosca.Transaction, context tosca.TransactionContext) error {
-	gas := transaction.GasPrice.Scale(uint64(transaction.GasLimit))
+	cost, overflow := new(uint256.Int).MulOverflow(
+		transaction.GasPrice.ToUint256(), uint256.NewInt(uint64(transaction.GasLimit)))
+	if overflow {
+		return fmt.Errorf("gas cost overflow: %v * %v", transaction.GasPrice, transaction.GasLimit)
+	}
+	gas := tosca.ValueFromUint256(cost)
 
 	// Buy gas
 	senderBalance := context.GetBalance(transaction.Sender)
diff --git a/go/processor/opera/processor.go b/go/processor/opera/processor.go
index 3a506ae..5bb5d6c 100644
--- a/go/processor/opera/processor.go
+++ b/go/processor/opera/processor.go
@@ -332,7 +332,10 @@ func buyGas(tx tosca.Transaction, state tosca.WorldState) error {
 	// TODO: support arithmetic operations with Value type
 	gasPrice := tx.GasPrice.ToUint256()
 	mgval := uint256.NewInt(uint64(tx.GasLimit))
-	mgval = mgval.Mul(mgval, gasPrice)
+	mgval, overflow := mgval.MulOverflow(mgval, gasPrice)
+	if overflow {
+		return fmt.Errorf("%w: address %v, gas cost overflow: %v * %v", errInsufficientFunds, tx.Sender, tx.GasPrice, tx.GasLimit)
+	}
 	// Note: Opera doesn't need to check against gasFeeCap instead of gasPrice, as it's too aggressive in the asynchronous environment
 	balance := state.GetBalance(tx.Sender)
 	if have, want := balance.ToUint256(), mgval; have.Cmp(want) < 0 {
-- 
2.43.0


From 485d3e90138a9096020260cd1dfc4dd1731cd84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:17 +0000
Subject: [PATCH 09/21] fix: return the gas of calls refused for their depth or
 value in floria

---
 go/processor/floria/run_context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 5ebeb42..af1122f 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -33,7 +33,7 @@ type runContext struct {
 
 func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (tosca.CallResult, error) {
 	if r.depth > MaxRecursiveDepth {
-		return tosca.CallResult{}, nil
+		return tosca.CallResult{GasLeft: parameters.Gas}, nil
 	}
 	r.depth++
 	defer func() { r.depth-- }()
@@ -84,7 +84,7 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	if kind != tosca.StaticCall && kind != tosca.DelegateCall {
 		if err := transferValue(r, parameters.Value, parameters.Sender, recipient); err != nil {
 			r.RestoreSnapshot(snapshot)
-			return tosca.CallResult{}, nil
+			return tosca.CallResult{GasLeft: parameters.Gas}, nil
 		}
 	}
 
-- 
2.43.0


From 010c7bd1a6d9d30064ec96d567e2e328665791aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:17 +0000
Subject: [PATCH 10/21] fix: increase the creator's nonce also on address
 collisions and never wrap it in floria

---
 go/processor/floria/run_context.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index af1122f..4856572 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -53,20 +53,24 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 			code = tosca.Code(parameters.Input)
 			codeHash = hashCode(code)
 		}
+		nonce := r.GetNonce(parameters.Sender)
+		if nonce+1 < nonce {
+			return tosca.CallResult{GasLeft: parameters.Gas}, nil
+		}
 		createdAddress = createAddress(
 			kind,
 			parameters.Sender,
-			r.GetNonce(parameters.Sender),
+			nonce,
 			parameters.Salt,
 			codeHash,
 		)
+		r.SetNonce(parameters.Sender, nonce+1)
 		if r.GetNonce(createdAddress) != 0 ||
 			(r.GetCodeHash(createdAddress) != (tosca.Hash{}) &&
 				r.GetCodeHash(createdAddress) != emptyCodeHash) {
 			return tosca.CallResult{}, nil
 		}
 
-		r.SetNonce(parameters.Sender, r.GetNonce(parameters.Sender)+1)
 		recipient = createdAddress
 	}
 
-- 
2.43.0


From baa9bf01488cb27f097bb7c408b096b82b59afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:28 +0000
Subject: [PATCH 11/21] fix: add created addresses to the accessed addresses in
 floria

---
 go/processor/floria/run_context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 4856572..bd7b07a 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -65,6 +65,9 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 			codeHash,
 		)
 		r.SetNonce(parameters.Sender, nonce+1)
+		if r.blockParameters.Revision >= tosca.R09_Berlin {
+			r.AccessAccount(createdAddress)
+		}
 		if r.GetNonce(createdAddress) != 0 ||
 			(r.GetCodeHash(createdAddress) != (tosca.Hash{}) &&
 				r.GetCodeHash(createdAddress) != emptyCodeHash) {
-- 
2.43.0


From b7c5e4aad3a80211f917c95d45adbe5dce53b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:28 +0000
Subject: [PATCH 12/21] fix: run init code without call data in floria

---
 go/processor/floria/run_context.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index bd7b07a..6bc0c92 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -123,6 +123,11 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		}, nil
 	}
 
+	input := parameters.Input
+	if kind == tosca.Create || kind == tosca.Create2 {
+		input = nil // the input of creations is the code to be run
+	}
+
 	interpreterParameters := tosca.Parameters{
 		BlockParameters:       r.blockParameters,
 		TransactionParameters: r.transactionParameters,
@@ -133,7 +138,7 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 		Gas:                   parameters.Gas,
 		Recipient:             recipient,
 		Sender:                parameters.Sender,
-		Input:                 parameters.Input,
+		Input:                 input,
 		Value:                 parameters.Value,
 		CodeHash:              &codeHash,
 		Code:                  code,
-- 
2.43.0


From 00e0d75e293c4d730c9183780dae2b9ab4b5e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:42 +0000
Subject: [PATCH 13/21] fix: refuse calls of floria's state contract in static
 mode

---
 go/processor/floria/run_context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/processor/floria/run_context.go b/go/processor/floria/run_context.go
index 6bc0c92..7cc2a14 100644
--- a/go/processor/floria/run_context.go
+++ b/go/processor/floria/run_context.go
@@ -80,6 +80,9 @@ func (r runContext) Call(kind tosca.CallKind, parameters tosca.CallParameters) (
 	if kind == tosca.StaticCall {
 		r.static = true
 	}
+	if r.static && parameters.Recipient == StateContractAddress() {
+		return tosca.CallResult{}, nil // the state contract only modifies the state
+	}
 
 	snapshot := r.CreateSnapshot()
 
-- 
2.43.0


From 3c7207c94b6d1742a0ea361cd9a2f9f0193e6507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:42 +0000
Subject: [PATCH 14/21] fix: reject nonce increments beyond 64 bits in floria's
 state contract

---
 go/processor/floria/state_contract.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/go/processor/floria/state_contract.go b/go/processor/floria/state_contract.go
index 0d062ed..e031166 100644
--- a/go/processor/floria/state_contract.go
+++ b/go/processor/floria/state_contract.go
@@ -228,14 +228,15 @@ func executeStateContractIncNonce(state tosca.WorldState, sender tosca.Address,
 
 	account := tosca.Address(input[12:32])
 	value := tosca.Value(input[32:64])
-	valueUint := big.NewInt(0).SetBytes(value[:]).Uint64()
+	increment := big.NewInt(0).SetBytes(value[:])
+	valueUint := increment.Uint64()
 
 	if account == sender {
 		// Origin nonce shouldn't change during his transaction
 		return 0, ErrExecutionReverted
 	}
 
-	if valueUint <= 0 || 256 <= valueUint {
+	if !increment.IsUint64() || valueUint <= 0 || 256 <= valueUint {
 		// Don't allow large nonce increasing to prevent a nonce overflow
 		return 0, ErrExecutionReverted
 	}
-- 
2.43.0


From 4a263a1b5d2403ef9b8c7ee3970a27328c367024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:13 +0000
Subject: [PATCH 15/21] fix: refuse precompiled contracts whose gas cost
 exceeds 63 bits in floria

---
 go/processor/floria/precompiled.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/processor/floria/precompiled.go b/go/processor/floria/precompiled.go
index 2dbe7df..9eea4ff 100644
--- a/go/processor/floria/precompiled.go
+++ b/go/processor/floria/precompiled.go
@@ -22,7 +22,7 @@ func handlePrecompiledContract(revision tosca.Revision, input tosca.Data, addres
 		return tosca.CallResult{}, false
 	}
 	gasCost := contract.RequiredGas(input)
-	if gas < tosca.Gas(gasCost) {
+	if gas < 0 || uint64(gas) < gasCost { // costs may exceed the range of tosca.Gas
 		return tosca.CallResult{}, true
 	}
 	gas -= tosca.Gas(gasCost)
-- 
2.43.0


From ab0cee445a3dfa45ccde765e6d989714d01e6101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 16/21] fix: run go-ethereum's interpreter in static mode when
 requested

---
 go/interpreter/geth/geth.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/interpreter/geth/geth.go b/go/interpreter/geth/geth.go
index c9779d8..7ed13a8 100644
--- a/go/interpreter/geth/geth.go
+++ b/go/interpreter/geth/geth.go
@@ -45,7 +45,7 @@ func (m *gethVm) Run(parameters tosca.Parameters) (tosca.Result, error) {
 	}
 	evm, contract, stateDb := createGethInterpreterContext(parameters)
 
-	output, err := evm.Interpreter().Run(contract, parameters.Input, false)
+	output, err := evm.Interpreter().Run(contract, parameters.Input, parameters.Static)
 
 	result := tosca.Result{
 		Output:    output,
-- 
2.43.0


From 2bff3bfdeda974e990c8e73bb5d4780ba6e36dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:47 +0000
Subject: [PATCH 17/21] fix: mark read-only mode for all but precompiled
 contracts in the geth adapter

---
 go/geth_adapter/adapter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/geth_adapter/adapter.go b/go/geth_adapter/adapter.go
index 689c281..223a640 100644
--- a/go/geth_adapter/adapter.go
+++ b/go/geth_adapter/adapter.go
@@ -615,11 +615,11 @@ func bigIntToWord(value *big.Int) (tosca.Word, error) {
 }
 
 func isPrecompiledContract(recipient tosca.Address) bool {
-	// the addresses 1-9 are precompiled contracts
-	for i := 0; i < 18; i++ {
+	// the addresses 1-10 are precompiled contracts
+	for i := 0; i < 19; i++ {
 		if recipient[i] != 0 {
 			return false
 		}
 	}
-	return 1 <= recipient[19] && recipient[19] <= 9
+	return 1 <= recipient[19] && recipient[19] <= 10
 }
-- 
2.43.0


From c350068396c46529f34b69bc81675ff35465314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:35 +0000
Subject: [PATCH 18/21] fix: allocate a stack when the pooled one is too small

The pool may hold a stack without capacity (the one of a new state that was
released), on which NewStackWithSize panicked.
---
 go/ct/st/stack.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/ct/st/stack.go b/go/ct/st/stack.go
index 5815059..5f1d991 100644
--- a/go/ct/st/stack.go
+++ b/go/ct/st/stack.go
@@ -48,7 +48,11 @@ func NewStackWithSize(size int) *Stack {
 	if MaxStackSize < size {
 		panic("Warning: maximal stack size exceeded")
 	}
-	stack.stack = stack.stack[:size]
+	if cap(stack.stack) < size {
+		stack.stack = make([]U256, size, MaxStackSize)
+	} else {
+		stack.stack = stack.stack[:size]
+	}
 	return stack
 }
 
-- 
2.43.0


From 558c16e98572d3b637c5d8ee6547dbdbcbc97dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:35 +0000
Subject: [PATCH 19/21] fix: ignore zero values of original storage when
 comparing states

Storage.Eq compared the original values including explicit zeros, while Diff
and the current values treat a missing slot as zero; states could be unequal
without any difference.
---
 go/ct/st/storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/ct/st/storage.go b/go/ct/st/storage.go
index 650c71e..5c98787 100644
--- a/go/ct/st/storage.go
+++ b/go/ct/st/storage.go
@@ -157,7 +157,7 @@ func mapEqualIgnoringZeroValues[K comparable](a map[K]U256, b map[K]U256) bool {
 
 func (a *Storage) Eq(b *Storage) bool {
 	return mapEqualIgnoringZeroValues(a.current, b.current) &&
-		maps.Equal(a.original, b.original) &&
+		mapEqualIgnoringZeroValues(a.original, b.original) &&
 		maps.Equal(a.warm, b.warm)
 }
 
-- 
2.43.0


From d012b6880b61d494f97fa7ce89aecbb776cc298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:24 +0000
Subject: [PATCH 20/21] fix: keep the byte behind a program counter beyond 16
 bits

Converting a PC instruction at a position beyond 65535 skipped the following
byte; a jump destination there was lost.
---
 go/interpreter/lfvm/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/interpreter/lfvm/converter.go b/go/interpreter/lfvm/converter.go
index 4870ac5..350905c 100644
--- a/go/interpreter/lfvm/converter.go
+++ b/go/interpreter/lfvm/converter.go
@@ -185,7 +185,7 @@ func appendInstructions(res *codeBuilder, pos int, code []byte, withSuperInstruc
 	if toscaOpCode == vm.PC {
 		if pos > math.MaxUint16 {
 			res.appendCode(INVALID)
-			return 1
+			return 0
 		}
 		res.appendOp(PC, uint16(pos))
 		return 0
-- 
2.43.0


From f316a800f75b22fb18abf7b2a93825c5910102be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:24 +0000
Subject: [PATCH 21/21] fix: let fillers reach jump destinations beyond 16 bits

The argument of JUMP_TO truncates jump destinations beyond position 65535, so
that the execution of large init codes continued at an earlier instruction.
---
 go/interpreter/lfvm/instructions.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/interpreter/lfvm/instructions.go b/go/interpreter/lfvm/instructions.go
index 2677064..474ae28 100644
--- a/go/interpreter/lfvm/instructions.go
+++ b/go/interpreter/lfvm/instructions.go
@@ -68,6 +68,15 @@ func opJumpi(c *context) error {
 }
 
 func opJumpTo(c *context) {
+	// The 16-bit argument can not represent all positions of codes with more
+	// than 2^16 instructions. For those, the filler instructions between this
+	// instruction and the next jump destination are skipped one by one.
+	if len(c.code) > math.MaxUint16+1 {
+		for int(c.pc)+1 < len(c.code) && c.code[c.pc+1].opcode == NOOP {
+			c.pc++
+		}
+		return
+	}
 	// Update the PC to the jump destination -1 since interpreter will increase PC by 1 afterward.
 	c.pc = int32(c.code[c.pc].arg) - 1
 }
-- 
2.43.0

