From 571aacfbf9484364f788bf88b7df2e9e99f9dfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 01/44] fix: keep the surrounding frame's state when an inner
 frame reverts

---
 x/evm/state/statedb.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 4eb7926..d4339b3 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -585,8 +585,9 @@ func (s *StateDB) RevertToSnapshot(i int) {
 	snap := s.snaps[i]
 	s.ctx = snap.ctx
 
-	// clear the snapshots after the given id
-	s.snaps = s.snaps[:i]
+	// clear the snapshots after the given id, but keep the snapshot itself
+	// since its context is the current context which must be committed later
+	s.snaps = s.snaps[:i+1]
 }
 
 // Prepare handles the preparatory steps for executing a state transition with.
-- 
2.43.0


From 4dc5e75a993a4b6814f315f524801ae4f618356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 02/44] fix: keep transient storage private to each contract

---
 x/evm/state/statedb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index d4339b3..5930891 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -540,14 +540,14 @@ func (s *StateDB) SetTransientState(addr common.Address, key, value common.Hash)
 		return
 	}
 
-	if err := s.transientVMStore.Set(s.ctx, collections.Join(s.execIndex, key[:]), value[:]); err != nil {
+	if err := s.transientVMStore.Set(s.ctx, collections.Join(s.execIndex, append(addr.Bytes(), key[:]...)), value[:]); err != nil {
 		panic(err)
 	}
 }
 
 // GetTransientState gets transient storage for a given account.
 func (s *StateDB) GetTransientState(addr common.Address, key common.Hash) common.Hash {
-	data, err := s.transientVMStore.Get(s.ctx, collections.Join(s.execIndex, key[:]))
+	data, err := s.transientVMStore.Get(s.ctx, collections.Join(s.execIndex, append(addr.Bytes(), key[:]...)))
 	if err != nil && errors.Is(err, collections.ErrNotFound) {
 		return common.Hash{}
 	} else if err != nil {
-- 
2.43.0


From ddba23325c67df496d125326576bfbe908f00d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 03/44] fix: run system contracts on the state of the calling
 frame

---
 x/evm/keeper/context.go     |  7 ++++---
 x/evm/keeper/precompiles.go | 20 ++++++++++++++++++++
 x/evm/state/statedb.go      |  5 +++++
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index a010cd5..efa516a 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -169,6 +169,8 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 	if err != nil {
 		return ctx, nil, err
 	}
+	// set cosmos messages to context
+	ctx = sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
 	stateDB, err := k.NewStateDB(ctx, evm, fee)
 	if err != nil {
 		return ctx, nil, err
@@ -179,15 +181,14 @@ func (k Keeper) CreateEVM(ctx context.Context, caller common.Address, tracer *tr
 		ExtraEips: extraEIPs,
 	}
 
-	// set cosmos messages to context
-	ctx = sdk.UnwrapSDKContext(ctx).WithValue(types.CONTEXT_KEY_COSMOS_MESSAGES, &[]sdk.Msg{})
 	*evm = *vm.NewEVMWithPrecompiles(
 		blockContext,
 		txContext,
 		stateDB,
 		types.DefaultChainConfig(ctx),
 		vmConfig,
-		k.precompiles.toMap(ctx),
+		// precompiles must work on the context of the current snapshot
+		k.precompiles.toMap(snapshotContext{Context: ctx, stateDB: stateDB}),
 	)
 
 	if tracer != nil {
diff --git a/x/evm/keeper/precompiles.go b/x/evm/keeper/precompiles.go
index 5f7a39c..8f3beb9 100644
--- a/x/evm/keeper/precompiles.go
+++ b/x/evm/keeper/precompiles.go
@@ -6,8 +6,11 @@ import (
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/core/vm"
 
+	sdk "github.com/cosmos/cosmos-sdk/types"
+
 	cosmosprecompile "github.com/initia-labs/minievm/x/evm/precompiles/cosmos"
 	erc20registryprecompile "github.com/initia-labs/minievm/x/evm/precompiles/erc20_registry"
+	evmstate "github.com/initia-labs/minievm/x/evm/state"
 	"github.com/initia-labs/minievm/x/evm/types"
 )
 
@@ -51,6 +54,23 @@ func (k *Keeper) loadPrecompiles() error {
 	return nil
 }
 
+// snapshotContext is a context which always resolves to the context of the
+// current snapshot of the state db, so the effects of precompiles follow
+// the frame in which they are called.
+type snapshotContext struct {
+	context.Context
+	stateDB *evmstate.StateDB
+}
+
+// Value implements context.Context.
+func (c snapshotContext) Value(key any) any {
+	if key == sdk.SdkContextKey {
+		return c.stateDB.Context()
+	}
+
+	return c.Context.Value(key)
+}
+
 // precompiles is a list of precompiled contracts.
 type precompiles []precompile
 
diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 5930891..1de1ffd 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -118,6 +118,11 @@ func NewStateDB(
 	return s, nil
 }
 
+// Context returns the context of the current snapshot.
+func (s *StateDB) Context() sdk.Context {
+	return s.ctx
+}
+
 // AddBalance mint coins to the recipient
 func (s *StateDB) AddBalance(addr common.Address, amount *uint256.Int, _ tracing.BalanceChangeReason) {
 	if amount.IsZero() {
-- 
2.43.0


From 7e6a21d883324c0b226180c2ffe6b8200077f26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 04/44] fix: drop chain messages queued by a reverted frame

---
 x/evm/state/statedb.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/x/evm/state/statedb.go b/x/evm/state/statedb.go
index 1de1ffd..64bce87 100644
--- a/x/evm/state/statedb.go
+++ b/x/evm/state/statedb.go
@@ -569,6 +569,13 @@ func (s *StateDB) Snapshot() int {
 
 	// create a new snapshot
 	snap := NewSnapshot(s.ctx)
+
+	// queued cosmos messages must be reverted together with the snapshot
+	if messages, ok := s.ctx.Value(evmtypes.CONTEXT_KEY_COSMOS_MESSAGES).(*[]sdk.Msg); ok {
+		copied := append([]sdk.Msg{}, *messages...)
+		snap.ctx = snap.ctx.WithValue(evmtypes.CONTEXT_KEY_COSMOS_MESSAGES, &copied)
+	}
+
 	s.snaps = append(s.snaps, snap)
 
 	// use the new snapshot context
@@ -657,6 +664,11 @@ func (s *StateDB) Commit() error {
 		s.snaps[len(s.snaps)-i-1].Commit()
 	}
 
+	// hand over the queued cosmos messages of the successful frames
+	if messages, ok := s.ctx.Value(evmtypes.CONTEXT_KEY_COSMOS_MESSAGES).(*[]sdk.Msg); ok {
+		*s.initialCtx.Value(evmtypes.CONTEXT_KEY_COSMOS_MESSAGES).(*[]sdk.Msg) = *messages
+	}
+
 	// use the initial context
 	s.ctx = s.initialCtx
 
-- 
2.43.0


From 4fae6abc6984d67437008447492045d0325e6ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 05/44] fix: charge the gas burned by an exceptional halt

---
 x/evm/keeper/context.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/evm/keeper/context.go b/x/evm/keeper/context.go
index efa516a..61a22b0 100644
--- a/x/evm/keeper/context.go
+++ b/x/evm/keeper/context.go
@@ -264,6 +264,7 @@ func (k Keeper) EVMCallWithTracer(ctx context.Context, caller common.Address, co
 
 	// evm sometimes return 0 gasRemaining, but it's not an out of gas error.
 	if gasRemaining == 0 && err != nil && err != vm.ErrOutOfGas {
+		sdkCtx.GasMeter().ConsumeGas(gasBalance, "EVM gas consumption")
 		return nil, nil, types.ErrEVMCallFailed.Wrap(err.Error())
 	}
 
@@ -366,6 +367,7 @@ func (k Keeper) EVMCreateWithTracer(ctx context.Context, caller common.Address,
 
 	// evm sometimes return 0 gasRemaining, but it's not an out of gas error.
 	if gasRemaining == 0 && err != nil && err != vm.ErrOutOfGas {
+		sdkCtx.GasMeter().ConsumeGas(gasBalance, "EVM gas consumption")
 		return nil, common.Address{}, nil, types.ErrEVMCreateFailed.Wrap(err.Error())
 	}
 
-- 
2.43.0


From fac2bcea4a1054e3e322954b7ab579241083b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 06/44] fix: reject queued chain messages that no one has to
 sign

---
 x/evm/precompiles/cosmos/contract.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/evm/precompiles/cosmos/contract.go b/x/evm/precompiles/cosmos/contract.go
index 1e6a1d7..f4cfee0 100644
--- a/x/evm/precompiles/cosmos/contract.go
+++ b/x/evm/precompiles/cosmos/contract.go
@@ -231,6 +231,11 @@ func (e CosmosPrecompile) ExtendedRun(caller vm.ContractRef, input []byte, suppl
 			return nil, ctx.GasMeter().GasConsumedToLimit(), types.ErrPrecompileFailed.Wrap(err.Error())
 		}
 
+		// a message without any signer has no one to authorize it
+		if len(signers) == 0 {
+			return nil, ctx.GasMeter().GasConsumedToLimit(), sdkerrors.ErrUnauthorized.Wrap("message requires no signer")
+		}
+
 		for _, signer := range signers {
 			if !bytes.Equal(callerAddr, signer) {
 				return nil, ctx.GasMeter().GasConsumedToLimit(), sdkerrors.ErrUnauthorized.Wrapf(
-- 
2.43.0


From fdb6b22a3a35d9d47122e083d46685eb54c48fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 07/44] fix: convert whitelisted queries on private messages

The request and response messages of the whitelist were shared by all
executions and reset only on success, so a malformed query leaked its
fields into the next one and concurrent executions raced.
---
 x/evm/types/query_cosmos.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/x/evm/types/query_cosmos.go b/x/evm/types/query_cosmos.go
index 86210ec..e1098a6 100644
--- a/x/evm/types/query_cosmos.go
+++ b/x/evm/types/query_cosmos.go
@@ -34,6 +34,9 @@ func DefaultQueryCosmosWhitelist() QueryCosmosWhitelist {
 
 // ConvertProtoToJSON unmarshal the given bytes into a proto message and then marshals it to json.
 func ConvertProtoToJSON(cdc codec.Codec, protoResponse proto.Message, bz []byte) ([]byte, error) {
+	// the whitelisted message is shared by all executions, so work on a copy
+	protoResponse = proto.Clone(protoResponse)
+
 	// unmarshal binary into stargate response data structure
 	err := cdc.Unmarshal(bz, protoResponse)
 	if err != nil {
@@ -45,11 +48,13 @@ func ConvertProtoToJSON(cdc codec.Codec, protoResponse proto.Message, bz []byte)
 		return nil, err
 	}
 
-	protoResponse.Reset()
 	return bz, nil
 }
 
 func ConvertJSONToProto(cdc codec.Codec, protoRequest proto.Message, bz []byte) ([]byte, error) {
+	// the whitelisted message is shared by all executions, so work on a copy
+	protoRequest = proto.Clone(protoRequest)
+
 	// unmarshal binary into stargate response data structure
 	err := cdc.UnmarshalJSON(bz, protoRequest)
 	if err != nil {
@@ -61,6 +66,5 @@ func ConvertJSONToProto(cdc codec.Codec, protoRequest proto.Message, bz []byte)
 		return nil, err
 	}
 
-	protoRequest.Reset()
 	return bz, nil
 }
-- 
2.43.0


From e1494a9853c28bdda1909c1994161c4aac26aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 08/44] fix: stop gas from wrapping below a code chunk's cost

With the verkle rules active the interpreter subtracts a code chunk's
witness gas without checking that it is there, so a call with less gas
than a chunk costs went on with almost 2^64 gas and handed that back to
its caller. The chain keeps no verkle tree, so leave those rules off.
---
 x/evm/types/chain_config.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/x/evm/types/chain_config.go b/x/evm/types/chain_config.go
index df95593..7b70a2d 100644
--- a/x/evm/types/chain_config.go
+++ b/x/evm/types/chain_config.go
@@ -32,7 +32,6 @@ func DefaultChainConfig(ctx context.Context) *params.ChainConfig {
 	shanghaiTime := uint64(0)
 	cancunTime := uint64(0)
 	pragueTime := uint64(0)
-	verkleTime := uint64(0)
 
 	return &params.ChainConfig{
 		ChainID:             chainID(ctx),
@@ -55,6 +54,5 @@ func DefaultChainConfig(ctx context.Context) *params.ChainConfig {
 		ShanghaiTime:        &shanghaiTime,
 		CancunTime:          &cancunTime,
 		PragueTime:          &pragueTime,
-		VerkleTime:          &verkleTime,
 	}
 }
-- 
2.43.0


From d26aabaa259cd0eb262492164c31d7e0a0256499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 09/44] fix: record each block's own hash under its own height

---
 x/evm/abci.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/x/evm/abci.go b/x/evm/abci.go
index 5a1b8db..fcac579 100644
--- a/x/evm/abci.go
+++ b/x/evm/abci.go
@@ -13,11 +13,7 @@ import (
 // PreBlock track latest 256 block hashes
 func PreBlock(ctx sdk.Context, k *keeper.Keeper) (sdk.ResponsePreBlock, error) {
 	defer telemetry.ModuleMeasureSince(types.ModuleName, time.Now(), telemetry.MetricKeyEndBlocker)
-	height := uint64(ctx.BlockHeight())
-	if height <= 1 {
-		return sdk.ResponsePreBlock{}, nil
-	}
 
-	// current block header hash is created by the previous block, so we track it with height-1
-	return sdk.ResponsePreBlock{}, k.TrackBlockHash(ctx, height-1, common.BytesToHash(ctx.HeaderHash()))
+	// the header hash is the hash of the current block
+	return sdk.ResponsePreBlock{}, k.TrackBlockHash(ctx, uint64(ctx.BlockHeight()), common.BytesToHash(ctx.HeaderHash()))
 }
-- 
2.43.0


From 417c22f20f670c9a31de050e6b89c5e0f8cdc74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 10/44] fix: send only the coin itself to the community pool
 when burning

---
 x/evm/keeper/erc20.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/evm/keeper/erc20.go b/x/evm/keeper/erc20.go
index 813c143..7ef9ad7 100644
--- a/x/evm/keeper/erc20.go
+++ b/x/evm/keeper/erc20.go
@@ -66,7 +66,7 @@ func (k ERC20Keeper) BurnCoins(ctx context.Context, addr sdk.AccAddress, amount
 		// if a coin is not generated from 0x1, then send the coin to community pool
 		// because we don't have burn capability.
 		if types.IsERC20Denom(coin.Denom) {
-			if err := k.communityPoolKeeper.FundCommunityPool(ctx, amount, evmAddr.Bytes()); err != nil {
+			if err := k.communityPoolKeeper.FundCommunityPool(ctx, sdk.NewCoins(coin), evmAddr.Bytes()); err != nil {
 				return err
 			}
 
-- 
2.43.0


From 07665d5de909568033c47e15c0cace2b4ca90a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 11/44] fix: list each holder once

---
 x/bank/keeper/view.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/x/bank/keeper/view.go b/x/bank/keeper/view.go
index c7fdd6f..64c1683 100644
--- a/x/bank/keeper/view.go
+++ b/x/bank/keeper/view.go
@@ -12,6 +12,7 @@ import (
 	cosmoskeeper "github.com/cosmos/cosmos-sdk/x/bank/keeper"
 	"github.com/cosmos/cosmos-sdk/x/bank/types"
 
+	"github.com/ethereum/go-ethereum/common"
 	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
@@ -134,6 +135,12 @@ func (k EVMViewKeeper) IterateAccountBalances(ctx context.Context, addr sdk.AccA
 func (k EVMViewKeeper) IterateAllBalances(ctx context.Context, cb func(sdk.AccAddress, sdk.Coin) bool) {
 	k.ak.IterateAccounts(ctx, func(account sdk.AccountI) bool {
 		addr := account.GetAddress()
+
+		// a long address holds its coins under its shorthand address, which has its own account
+		if len(addr) != common.AddressLength {
+			return false
+		}
+
 		err := k.ek.IterateAccountBalances(ctx, addr, func(coin sdk.Coin) (bool, error) {
 			return cb(addr, coin), nil
 		})
-- 
2.43.0


From d41c05481c18607471be6e705315e45bcffeb5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:33 +0000
Subject: [PATCH 12/44] fix: refuse to send coins whose token contract does not
 exist

---
 x/evm/keeper/erc20.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/evm/keeper/erc20.go b/x/evm/keeper/erc20.go
index 7ef9ad7..7b5eff8 100644
--- a/x/evm/keeper/erc20.go
+++ b/x/evm/keeper/erc20.go
@@ -386,6 +386,12 @@ func (k ERC20Keeper) SendCoins(ctx context.Context, fromAddr sdk.AccAddress, toA
 			return err
 		}
 
+		// a call to an address without code always succeeds, so it must not be taken for a transfer
+		account, ok := k.accountKeeper.GetAccount(ctx, contractAddr.Bytes()).(*types.ContractAccount)
+		if !ok || len(account.CodeHash) == 0 {
+			return types.ErrInvalidDenom.Wrapf("no contract found for denom: %s", coin.Denom)
+		}
+
 		inputBz, err := k.ERC20ABI.Pack("sudoTransfer", evmFromAddr, evmToAddr, coin.Amount.BigInt())
 		if err != nil {
 			return types.ErrFailedToPackABI.Wrap(err.Error())
-- 
2.43.0


From 090a711da8454e6b2d5983a20ccbaa7d66174583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 13/44] fix: bound the gas of token view functions

---
 x/evm/keeper/erc20.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/x/evm/keeper/erc20.go b/x/evm/keeper/erc20.go
index 7b5eff8..71f2488 100644
--- a/x/evm/keeper/erc20.go
+++ b/x/evm/keeper/erc20.go
@@ -9,6 +9,7 @@ import (
 	"cosmossdk.io/collections"
 	moderrors "cosmossdk.io/errors"
 	"cosmossdk.io/math"
+	storetypes "cosmossdk.io/store/types"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	"github.com/cosmos/cosmos-sdk/types/query"
@@ -407,13 +408,34 @@ func (k ERC20Keeper) SendCoins(ctx context.Context, fromAddr sdk.AccAddress, toA
 	return nil
 }
 
+// viewGasLimit is the maximum gas amount can be used by a view function of an erc20 contract.
+const viewGasLimit = uint64(500_000)
+
+// viewCall calls a view function of the erc20 contract with bounded gas, so a contract which
+// burns all the gas or never returns cannot break the queries and the exports over all tokens.
+func (k ERC20Keeper) viewCall(ctx context.Context, contractAddr common.Address, inputBz []byte) ([]byte, error) {
+	sdkCtx := sdk.UnwrapSDKContext(ctx)
+	gasMeter := sdkCtx.GasMeter()
+
+	// the gas of a simulation is already bounded
+	if sdkCtx.ExecMode() == sdk.ExecModeSimulate || gasMeter.GasRemaining() <= viewGasLimit {
+		return k.EVMStaticCall(sdkCtx, types.NullAddress, contractAddr, inputBz, nil)
+	}
+
+	viewCtx := sdkCtx.WithGasMeter(storetypes.NewGasMeter(viewGasLimit))
+	retBz, err := k.EVMStaticCall(viewCtx, types.NullAddress, contractAddr, inputBz, nil)
+	gasMeter.ConsumeGas(viewCtx.GasMeter().GasConsumedToLimit(), "erc20 view function")
+
+	return retBz, err
+}
+
 func (k ERC20Keeper) balanceOf(ctx context.Context, addr, contractAddr common.Address) (math.Int, error) {
 	inputBz, err := k.ERC20ABI.Pack("balanceOf", addr)
 	if err != nil {
 		return math.ZeroInt(), types.ErrFailedToPackABI.Wrap(err.Error())
 	}
 
-	retBz, err := k.EVMStaticCall(ctx, types.NullAddress, contractAddr, inputBz, nil)
+	retBz, err := k.viewCall(ctx, contractAddr, inputBz)
 	if err != nil {
 		return math.ZeroInt(), err
 	}
@@ -437,7 +459,7 @@ func (k ERC20Keeper) totalSupply(ctx context.Context, contractAddr common.Addres
 		return math.ZeroInt(), types.ErrFailedToPackABI.Wrap(err.Error())
 	}
 
-	retBz, err := k.EVMStaticCall(ctx, types.NullAddress, contractAddr, inputBz, nil)
+	retBz, err := k.viewCall(ctx, contractAddr, inputBz)
 	if err != nil {
 		return math.ZeroInt(), err
 	}
@@ -461,7 +483,7 @@ func (k ERC20Keeper) name(ctx context.Context, contractAddr common.Address) (str
 		return "", types.ErrFailedToPackABI.Wrap(err.Error())
 	}
 
-	retBz, err := k.EVMStaticCall(ctx, types.NullAddress, contractAddr, inputBz, nil)
+	retBz, err := k.viewCall(ctx, contractAddr, inputBz)
 	if err != nil {
 		return "", err
 	}
@@ -485,7 +507,7 @@ func (k ERC20Keeper) symbol(ctx context.Context, contractAddr common.Address) (s
 		return "", types.ErrFailedToPackABI.Wrap(err.Error())
 	}
 
-	retBz, err := k.EVMStaticCall(ctx, types.NullAddress, contractAddr, inputBz, nil)
+	retBz, err := k.viewCall(ctx, contractAddr, inputBz)
 	if err != nil {
 		return "", err
 	}
@@ -518,10 +540,10 @@ func (k ERC20Keeper) Decimals(ctx context.Context, contractAddr common.Address)
 		return 0, types.ErrFailedToPackABI.Wrap(err.Error())
 	}
 
-	retBz, err := k.EVMStaticCall(
+	retBz, err := k.viewCall(
 		// set the context value to prevent infinite loop
 		sdk.UnwrapSDKContext(ctx).WithValue(types.ContextKeyLoadDecimals, true),
-		types.NullAddress, contractAddr, inputBz, nil)
+		contractAddr, inputBz)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 0a12075bbeade50ecc0df267c1726870bd9821ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 14/44] fix: keep the account number when an account becomes a
 shorthand account

---
 x/evm/keeper/address.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/evm/keeper/address.go b/x/evm/keeper/address.go
index 288583c..423fae5 100644
--- a/x/evm/keeper/address.go
+++ b/x/evm/keeper/address.go
@@ -45,8 +45,13 @@ func (k Keeper) convertToEVMAddress(ctx context.Context, addr sdk.AccAddress, is
 			return common.Address{}, err
 		}
 
-		// register shorthand account
-		shorthandAccount.AccountNumber = k.accountKeeper.NextAccountNumber(ctx)
+		// register shorthand account; an empty account at the address keeps its account number
+		if account := k.accountKeeper.GetAccount(ctx, shorthandAddr.Bytes()); account != nil {
+			shorthandAccount.AccountNumber = account.GetAccountNumber()
+		} else {
+			shorthandAccount.AccountNumber = k.accountKeeper.NextAccountNumber(ctx)
+		}
+
 		k.accountKeeper.SetAccount(ctx, shorthandAccount)
 	}
 
-- 
2.43.0


From 7edc84405a373cdf171fb8969d61e75b19559fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:54 +0000
Subject: [PATCH 15/44] fix: consume the sequence of a failed EVM transaction

The state changes of the post handler are discarded when a message fails, so the
sequence that the ante handler left to the EVM messages was never consumed by a
failed transaction, and the same signed transaction could be included and charged
again. Consume it in the ante handler and let the first EVM message give it back.
---
 app/ante/ante.go               |  2 +
 app/ante/sigverify.go          | 67 +++++++++++++++++++++++++++++++---
 app/posthandler/posthandler.go |  1 -
 app/posthandler/sequence.go    | 59 ------------------------------
 x/evm/keeper/msg_server.go     | 26 +++++++++++++
 x/evm/types/keys.go            |  4 ++
 6 files changed, 93 insertions(+), 66 deletions(-)
 delete mode 100644 app/posthandler/sequence.go

diff --git a/app/ante/ante.go b/app/ante/ante.go
index 027611b..75dd3f5 100644
--- a/app/ante/ante.go
+++ b/app/ante/ante.go
@@ -98,6 +98,7 @@ func NewAnteHandler(options HandlerOptions) (sdk.AnteHandler, error) {
 		ante.NewSigGasConsumeDecorator(options.AccountKeeper, sigGasConsumer),
 		NewSigVerificationDecorator(options.AccountKeeper, options.EVMKeeper, options.SignModeHandler),
 		NewIncrementSequenceDecorator(options.AccountKeeper),
+		NewConsumeSequenceDecorator(options.AccountKeeper),
 		ibcante.NewRedundantRelayDecorator(options.IBCkeeper),
 		auctionante.NewAuctionDecorator(options.AuctionKeeper, options.TxEncoder, options.MevLane),
 	}
@@ -112,5 +113,6 @@ func CreateAnteHandlerForOPinit(ak ante.AccountKeeper, ek *evmkeeper.Keeper, sig
 		ante.NewSigGasConsumeDecorator(ak, ante.DefaultSigVerificationGasConsumer),
 		NewSigVerificationDecorator(ak, ek, signModeHandler),
 		NewIncrementSequenceDecorator(ak),
+		NewConsumeSequenceDecorator(ak),
 	)
 }
diff --git a/app/ante/sigverify.go b/app/ante/sigverify.go
index 0b4a464..1d8cb59 100644
--- a/app/ante/sigverify.go
+++ b/app/ante/sigverify.go
@@ -245,7 +245,7 @@ func (isd IncrementSequenceDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, sim
 	// decrement sequence of all signers which is used in EVM
 	// when we execute evm messages, it whould handle sequence number increment.
 	//
-	// NOTE: Need to revert it if a tx failed. See ../posthandler/sequence.go
+	// NOTE: Need to revert it if a tx failed. See ConsumeSequenceDecorator
 	if simulate || ctx.ExecMode() == sdk.ExecModeFinalize {
 		signerMap := make(map[string]bool)
 		for _, msg := range tx.GetMsgs() {
@@ -261,16 +261,17 @@ func (isd IncrementSequenceDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, sim
 				continue
 			}
 
-			if _, ok := signerMap[caller]; ok {
-				continue
-			}
-			signerMap[caller] = true
-
 			callerAccAddr, err := isd.ak.AddressCodec().StringToBytes(caller)
 			if err != nil {
 				return ctx, err
 			}
 
+			// an address has several string forms
+			if _, ok := signerMap[string(callerAccAddr)]; ok {
+				continue
+			}
+			signerMap[string(callerAccAddr)] = true
+
 			acc := isd.ak.GetAccount(ctx, callerAccAddr)
 			if err := acc.SetSequence(acc.GetSequence() - 1); err != nil {
 				panic(err)
@@ -282,3 +283,57 @@ func (isd IncrementSequenceDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, sim
 
 	return next(ctx, tx, simulate)
 }
+
+// ConsumeSequenceDecorator makes the sequence, which IncrementSequenceDecorator leaves to the evm
+// messages, consumed by the tx even if it fails: the state changes of failed messages (and of the
+// post handlers) are discarded, so the increment must be written by the ante handler. The evm
+// message handler gives it back before the execution of the first message of each caller.
+type ConsumeSequenceDecorator struct {
+	ak authante.AccountKeeper
+}
+
+func NewConsumeSequenceDecorator(ak authante.AccountKeeper) ConsumeSequenceDecorator {
+	return ConsumeSequenceDecorator{
+		ak: ak,
+	}
+}
+
+func (csd ConsumeSequenceDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, simulate bool, next sdk.AnteHandler) (sdk.Context, error) {
+	if simulate || ctx.ExecMode() != sdk.ExecModeFinalize {
+		return next(ctx, tx, simulate)
+	}
+
+	consumed := make(map[string]bool)
+	for _, msg := range tx.GetMsgs() {
+		var caller string
+		switch msg := msg.(type) {
+		case *evmtypes.MsgCreate:
+			caller = msg.Sender
+		case *evmtypes.MsgCreate2:
+			caller = msg.Sender
+		case *evmtypes.MsgCall:
+			caller = msg.Sender
+		default:
+			continue
+		}
+
+		callerAccAddr, err := csd.ak.AddressCodec().StringToBytes(caller)
+		if err != nil {
+			return ctx, err
+		}
+
+		if consumed[string(callerAccAddr)] {
+			continue
+		}
+		consumed[string(callerAccAddr)] = true
+
+		acc := csd.ak.GetAccount(ctx, callerAccAddr)
+		if err := acc.SetSequence(acc.GetSequence() + 1); err != nil {
+			return ctx, err
+		}
+
+		csd.ak.SetAccount(ctx, acc)
+	}
+
+	return next(ctx.WithValue(evmtypes.CONTEXT_KEY_CONSUMED_SEQUENCES, consumed), tx, simulate)
+}
diff --git a/app/posthandler/posthandler.go b/app/posthandler/posthandler.go
index bd180e0..04132f8 100644
--- a/app/posthandler/posthandler.go
+++ b/app/posthandler/posthandler.go
@@ -16,7 +16,6 @@ func NewPostHandler(
 	ek EVMKeeper,
 ) sdk.PostHandler {
 	return sdk.ChainPostDecorators(
-		NewSequenceIncrementDecorator(ak),
 		NewGasRefundDecorator(ek),
 	)
 }
diff --git a/app/posthandler/sequence.go b/app/posthandler/sequence.go
deleted file mode 100644
index aa79d46..0000000
--- a/app/posthandler/sequence.go
+++ /dev/null
@@ -1,59 +0,0 @@
-package posthandler
-
-import (
-	sdk "github.com/cosmos/cosmos-sdk/types"
-	authante "github.com/cosmos/cosmos-sdk/x/auth/ante"
-	evmtypes "github.com/initia-labs/minievm/x/evm/types"
-)
-
-var _ sdk.PostDecorator = &SequenceIncrementDecorator{}
-
-type SequenceIncrementDecorator struct {
-	ak authante.AccountKeeper
-}
-
-func NewSequenceIncrementDecorator(ak authante.AccountKeeper) sdk.PostDecorator {
-	return &SequenceIncrementDecorator{
-		ak,
-	}
-}
-
-// If a transaction fails, we need to revert the sequence decrement for EVM messages that were executed in the ante handler.
-// This is necessary because the sequence increment in EVM was reverted due to the failure.
-func (sid *SequenceIncrementDecorator) PostHandle(ctx sdk.Context, tx sdk.Tx, simulate, success bool, next sdk.PostHandler) (newCtx sdk.Context, err error) {
-	if !success && ctx.ExecMode() == sdk.ExecModeFinalize {
-		signerMap := make(map[string]bool)
-		for _, msg := range tx.GetMsgs() {
-			var caller string
-			switch msg := msg.(type) {
-			case *evmtypes.MsgCreate:
-				caller = msg.Sender
-			case *evmtypes.MsgCreate2:
-				caller = msg.Sender
-			case *evmtypes.MsgCall:
-				caller = msg.Sender
-			default:
-				continue
-			}
-
-			if _, ok := signerMap[caller]; ok {
-				continue
-			}
-			signerMap[caller] = true
-
-			callerAccAddr, err := sid.ak.AddressCodec().StringToBytes(caller)
-			if err != nil {
-				return ctx, err
-			}
-
-			acc := sid.ak.GetAccount(ctx, callerAccAddr)
-			if err := acc.SetSequence(acc.GetSequence() + 1); err != nil {
-				panic(err)
-			}
-
-			sid.ak.SetAccount(ctx, acc)
-		}
-	}
-
-	return next(ctx, tx, simulate, success)
-}
diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index 26dffd4..b2a3ccd 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -30,6 +30,9 @@ func (ms *msgServerImpl) Create(ctx context.Context, msg *types.MsgCreate) (*typ
 	if err != nil {
 		return nil, err
 	}
+	if err := ms.releaseSequence(ctx, sender); err != nil {
+		return nil, err
+	}
 
 	// argument validation
 	caller, err := ms.convertToEVMAddress(ctx, sender, true)
@@ -89,6 +92,9 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 	if err != nil {
 		return nil, err
 	}
+	if err := ms.releaseSequence(ctx, sender); err != nil {
+		return nil, err
+	}
 
 	// argument validation
 	caller, err := ms.convertToEVMAddress(ctx, sender, true)
@@ -142,6 +148,23 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 	}, nil
 }
 
+// releaseSequence gives back the sequence which the ante handler has consumed for the first evm
+// message of the sender; the execution of the message consumes it again.
+func (ms *msgServerImpl) releaseSequence(ctx context.Context, sender sdk.AccAddress) error {
+	consumed, ok := ctx.Value(types.CONTEXT_KEY_CONSUMED_SEQUENCES).(map[string]bool)
+	if !ok || !consumed[string(sender)] {
+		return nil
+	}
+	delete(consumed, string(sender))
+
+	senderAcc := ms.accountKeeper.GetAccount(ctx, sender)
+	if err := senderAcc.SetSequence(senderAcc.GetSequence() - 1); err != nil {
+		return err
+	}
+	ms.accountKeeper.SetAccount(ctx, senderAcc)
+	return nil
+}
+
 // increaseNonce increases the nonce of the given account.
 func (ms *msgServerImpl) increaseNonce(ctx context.Context, caller sdk.AccAddress) error {
 	senderAcc := ms.accountKeeper.GetAccount(ctx, caller)
@@ -161,6 +184,9 @@ func (ms *msgServerImpl) Call(ctx context.Context, msg *types.MsgCall) (*types.M
 	if err != nil {
 		return nil, err
 	}
+	if err := ms.releaseSequence(ctx, sender); err != nil {
+		return nil, err
+	}
 
 	// increase nonce before execution like evm does
 	//
diff --git a/x/evm/types/keys.go b/x/evm/types/keys.go
index 8c6aa2b..c3f3ef9 100644
--- a/x/evm/types/keys.go
+++ b/x/evm/types/keys.go
@@ -51,4 +51,8 @@ type ContextKey int
 const (
 	// CONTEXT_KEY_COSMOS_MESSAGES is a context key for cosmos messages
 	CONTEXT_KEY_COSMOS_MESSAGES ContextKey = iota
+
+	// CONTEXT_KEY_CONSUMED_SEQUENCES is a context key for the addresses (map[string]bool)
+	// whose sequence the ante handler has consumed on behalf of their first EVM message.
+	CONTEXT_KEY_CONSUMED_SEQUENCES
 )
-- 
2.43.0


From 67b2c7a472ecfb617946ee420112c0a9d29dd7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:20 +0000
Subject: [PATCH 16/44] fix: bind the fee and the message kind to the signed
 Ethereum transaction

A relayer could change the fee of an Ethereum-signed transaction, add further fee
coins, add an access list to a legacy transaction, or wrap any message kind into a
signed empty contract creation.
---
 x/evm/keeper/txutils.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index 81d526a..c60923d 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -271,6 +271,12 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 		return nil, nil, err
 	}
 
+	// the fee is not part of the signed ethereum tx, so it must be the one derived from the signed gas and fee cap.
+	gasFeeAmount := computeGasFeeAmount(gasFeeCap, gas, decimals)
+	if len(fees) > 1 || fees.AmountOf(params.FeeDenom).BigInt().Cmp(gasFeeAmount) != 0 {
+		return nil, nil, nil
+	}
+
 	var to *common.Address
 	var input []byte
 	var value *big.Int
@@ -311,6 +317,10 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 	case "/minievm.evm.v1.MsgCreate2":
 		// create2 is not supported
 		return nil, nil, nil
+
+	default:
+		// other messages cannot be represented in the ethereum tx
+		return nil, nil, nil
 	}
 
 	chainID := sdk.UnwrapSDKContext(ctx).ChainID()
@@ -319,6 +329,11 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 	var txData coretypes.TxData
 	switch md.Type {
 	case coretypes.LegacyTxType:
+		// legacy tx has no access list
+		if len(accessList) != 0 {
+			return nil, nil, nil
+		}
+
 		txData = &coretypes.LegacyTx{
 			Nonce:    sig.Sequence,
 			Gas:      gas,
-- 
2.43.0


From 417de9a60f94a35cb07ef0ab0300e281cb69a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 17/44] fix: gas price unit for fee tokens with more than 246
 decimals

decimals+9 wrapped around the uint8 and the price became a huge amount.
---
 jsonrpc/backend/gas.go        | 2 +-
 x/evm/keeper/context_utils.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonrpc/backend/gas.go b/jsonrpc/backend/gas.go
index 38d0fad..bb4192e 100644
--- a/jsonrpc/backend/gas.go
+++ b/jsonrpc/backend/gas.go
@@ -144,7 +144,7 @@ func (b *JSONRPCBackend) GasPrice() (*hexutil.Big, error) {
 		MulTruncate(math.LegacyNewDec(1e9)).
 		TruncateInt().BigInt()
 
-	return (*hexutil.Big)(types.ToEthersUint(decimals+9, gasPrice)), nil
+	return (*hexutil.Big)(types.ToGweiUint(decimals, gasPrice)), nil
 }
 
 func (b *JSONRPCBackend) MaxPriorityFeePerGas() (*hexutil.Big, error) {
diff --git a/x/evm/keeper/context_utils.go b/x/evm/keeper/context_utils.go
index 3975149..6e504a5 100644
--- a/x/evm/keeper/context_utils.go
+++ b/x/evm/keeper/context_utils.go
@@ -60,7 +60,7 @@ func (k Keeper) extractGasPriceFromContext(ctx context.Context, fee types.Fee) (
 		MulTruncate(math.LegacyNewDec(1e9)).
 		TruncateInt().BigInt()
 
-	return types.ToEthersUint(fee.Decimals()+9, gasPrice), nil
+	return types.ToGweiUint(fee.Decimals(), gasPrice), nil
 }
 
 func (k Keeper) baseFee(ctx context.Context, fee types.Fee) (*big.Int, error) {
@@ -74,7 +74,7 @@ func (k Keeper) baseFee(ctx context.Context, fee types.Fee) (*big.Int, error) {
 		MulTruncate(math.LegacyNewDec(1e9)).
 		TruncateInt().BigInt()
 
-	return types.ToEthersUint(fee.Decimals()+9, gasPrice), nil
+	return types.ToGweiUint(fee.Decimals(), gasPrice), nil
 }
 
 func (k Keeper) BaseFee(ctx context.Context) (*big.Int, error) {
-- 
2.43.0


From 72a19f6ea9c18f38353d55030e60a734a3c2b664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 18/44] fix: compare the accounts of allowed publishers, not
 their spelling

---
 x/evm/keeper/msg_server.go | 50 ++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index b2a3ccd..7b2ae21 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -58,19 +58,8 @@ func (ms *msgServerImpl) Create(ctx context.Context, msg *types.MsgCreate) (*typ
 	}
 
 	// assert deploy authorization
-	if len(params.AllowedPublishers) != 0 {
-		allowed := false
-		for _, publisher := range params.AllowedPublishers {
-			if msg.Sender == publisher {
-				allowed = true
-
-				break
-			}
-		}
-
-		if !allowed {
-			return nil, sdkerrors.ErrUnauthorized.Wrapf("`%s` is not allowed to deploy a contract", msg.Sender)
-		}
+	if err := ms.assertAllowedPublisher(params, sender, msg.Sender); err != nil {
+		return nil, err
 	}
 
 	// deploy a contract
@@ -120,19 +109,8 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 	}
 
 	// assert deploy authorization
-	if len(params.AllowedPublishers) != 0 {
-		allowed := false
-		for _, publisher := range params.AllowedPublishers {
-			if msg.Sender == publisher {
-				allowed = true
-
-				break
-			}
-		}
-
-		if !allowed {
-			return nil, sdkerrors.ErrUnauthorized.Wrapf("`%s` is not allowed to deploy a contract", msg.Sender)
-		}
+	if err := ms.assertAllowedPublisher(params, sender, msg.Sender); err != nil {
+		return nil, err
 	}
 
 	// deploy a contract
@@ -148,6 +126,26 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 	}, nil
 }
 
+// assertAllowedPublisher checks that the sender is one of the allowed publishers. The accounts are
+// compared, an address can be written in more than one way.
+func (ms *msgServerImpl) assertAllowedPublisher(params types.Params, sender sdk.AccAddress, senderStr string) error {
+	if len(params.AllowedPublishers) == 0 {
+		return nil
+	}
+
+	for _, publisher := range params.AllowedPublishers {
+		publisherAddr, err := ms.ac.StringToBytes(publisher)
+		if err != nil {
+			return err
+		}
+		if sender.Equals(sdk.AccAddress(publisherAddr)) {
+			return nil
+		}
+	}
+
+	return sdkerrors.ErrUnauthorized.Wrapf("`%s` is not allowed to deploy a contract", senderStr)
+}
+
 // releaseSequence gives back the sequence which the ante handler has consumed for the first evm
 // message of the sender; the execution of the message consumes it again.
 func (ms *msgServerImpl) releaseSequence(ctx context.Context, sender sdk.AccAddress) error {
-- 
2.43.0


From 98a02f00e615b08a9b7f863175347a0513c2181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:08 +0000
Subject: [PATCH 19/44] fix: refuse settings that name unknown extra EIPs

---
 x/evm/types/errors.go | 1 +
 x/evm/types/params.go | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/x/evm/types/errors.go b/x/evm/types/errors.go
index 3999ece..bf8f667 100644
--- a/x/evm/types/errors.go
+++ b/x/evm/types/errors.go
@@ -36,6 +36,7 @@ var (
 	ErrInvalidGasRefundRatio       = errorsmod.Register(ModuleName, 27, "Invalid gas refund ratio")
 	ErrFailedToGetERC20WrapperAddr = errorsmod.Register(ModuleName, 28, "Failed to get ERC20 wrapper address")
 	ErrInvalidNumRetainBlockHashes = errorsmod.Register(ModuleName, 29, "Invalid num retain block hashes")
+	ErrInvalidExtraEIP             = errorsmod.Register(ModuleName, 30, "Invalid extra EIP")
 )
 
 func NewRevertError(revert []byte) error {
diff --git a/x/evm/types/params.go b/x/evm/types/params.go
index 1ab12bf..7aa9398 100644
--- a/x/evm/types/params.go
+++ b/x/evm/types/params.go
@@ -5,6 +5,7 @@ import (
 	"cosmossdk.io/math"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 
+	"github.com/ethereum/go-ethereum/core/vm"
 	"gopkg.in/yaml.v3"
 )
 
@@ -26,6 +27,12 @@ func (p Params) String() string {
 }
 
 func (p Params) Validate(ac address.Codec) error {
+	for _, eip := range p.ExtraEIPs {
+		if !vm.ValidEip(int(eip)) {
+			return ErrInvalidExtraEIP.Wrapf("%d", eip)
+		}
+	}
+
 	for _, addr := range p.AllowedPublishers {
 		_, err := ac.StringToBytes(addr)
 		if err != nil {
-- 
2.43.0


From 20e2570aea6bab8a74407d315b272620add364a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:36 +0000
Subject: [PATCH 20/44] fix: refuse a fee denom whose balances do not follow
 its mints and burns

---
 x/evm/keeper/msg_server.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index 7b2ae21..f16232e 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -249,7 +249,7 @@ func (ms *msgServerImpl) UpdateParams(ctx context.Context, msg *types.MsgUpdateP
 	return &types.MsgUpdateParamsResponse{}, nil
 }
 
-// testFeeDenom tests if the fee denom has sudoMint and sudoBurn.
+// testFeeDenom tests if the fee denom has sudoMint and sudoBurn, and if its balances follow them.
 func (ms *msgServerImpl) testFeeDenom(ctx context.Context, params types.Params) (err error) {
 	_, err = types.DenomToContractAddr(ctx, ms, params.FeeDenom)
 	if err != nil && errors.Is(err, collections.ErrNotFound) {
@@ -274,8 +274,18 @@ func (ms *msgServerImpl) testFeeDenom(ctx context.Context, params types.Params)
 		}
 	}()
 
+	balance := evm.StateDB.GetBalance(types.StdAddress)
 	evm.StateDB.AddBalance(types.StdAddress, uint256.NewInt(1), tracing.BalanceChangeUnspecified)
+	minted := evm.StateDB.GetBalance(types.StdAddress)
+	if !minted.Eq(new(uint256.Int).AddUint64(balance, 1)) {
+		return types.ErrInvalidFeeDenom.Wrap("balance does not follow sudoMint")
+	}
+
 	evm.StateDB.SubBalance(types.StdAddress, uint256.NewInt(1), tracing.BalanceChangeUnspecified)
+	burned := evm.StateDB.GetBalance(types.StdAddress)
+	if !burned.Eq(balance) {
+		return types.ErrInvalidFeeDenom.Wrap("balance does not follow sudoBurn")
+	}
 
 	return nil
 }
-- 
2.43.0


From b73d37877762cda1caf6ee120dddc006c5d59aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:06 +0000
Subject: [PATCH 21/44] fix: refuse to move tokens of classes whose contract
 does not exist

---
 x/evm/keeper/erc721.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/x/evm/keeper/erc721.go b/x/evm/keeper/erc721.go
index cd184a3..d3188b0 100644
--- a/x/evm/keeper/erc721.go
+++ b/x/evm/keeper/erc721.go
@@ -97,6 +97,22 @@ func (k ERC721Keeper) CreateOrUpdateClass(ctx context.Context, classId, classUri
 	return nil
 }
 
+// collectionAddress returns the address of the contract of the class. A call to an address
+// without code always succeeds, so it must not be taken for a change of ownership.
+func (k ERC721Keeper) collectionAddress(ctx context.Context, classId string) (common.Address, error) {
+	contractAddr, err := types.ContractAddressFromClassId(ctx, k, classId)
+	if err != nil {
+		return types.NullAddress, err
+	}
+
+	account, ok := k.accountKeeper.GetAccount(ctx, contractAddr.Bytes()).(*types.ContractAccount)
+	if !ok || len(account.CodeHash) == 0 {
+		return types.NullAddress, types.ErrInvalidClassId.Wrapf("no contract found for class: %s", classId)
+	}
+
+	return contractAddr, nil
+}
+
 func (k ERC721Keeper) Transfers(ctx context.Context, sender, receiver sdk.AccAddress, classId string, tokenIds []string) error {
 	senderAddr, err := k.convertToEVMAddress(ctx, sender, true)
 	if err != nil {
@@ -107,7 +123,7 @@ func (k ERC721Keeper) Transfers(ctx context.Context, sender, receiver sdk.AccAdd
 		return err
 	}
 
-	contractAddr, err := types.ContractAddressFromClassId(ctx, k, classId)
+	contractAddr, err := k.collectionAddress(ctx, classId)
 	if err != nil {
 		return err
 	}
@@ -158,7 +174,7 @@ func (k ERC721Keeper) Burn(
 }
 
 func (k ERC721Keeper) Burns(ctx context.Context, owner sdk.AccAddress, classId string, tokenIds []string) error {
-	contractAddr, err := types.ContractAddressFromClassId(ctx, k, classId)
+	contractAddr, err := k.collectionAddress(ctx, classId)
 	if err != nil {
 		return err
 	}
@@ -214,7 +230,7 @@ func (k ERC721Keeper) Mints(
 	ctx context.Context, receiver sdk.AccAddress,
 	classId string, tokenIds, tokenUris, tokenData []string,
 ) error {
-	contractAddr, err := types.ContractAddressFromClassId(ctx, k, classId)
+	contractAddr, err := k.collectionAddress(ctx, classId)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 18bb6b6f1dc9440f10035d2d92c2577c5004ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:06 +0000
Subject: [PATCH 22/44] fix: refuse token ids that do not fit into uint256

---
 x/evm/types/collection.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/evm/types/collection.go b/x/evm/types/collection.go
index 99a6a61..bc0d938 100644
--- a/x/evm/types/collection.go
+++ b/x/evm/types/collection.go
@@ -27,7 +27,13 @@ func TokenIdToBigInt(classId string, tokenId string) (*big.Int, bool) {
 		hash.Write([]byte(tokenId))
 		return new(big.Int).SetBytes(hash.Sum(nil)), true
 	}
-	return new(big.Int).SetString(tokenId, 10)
+
+	// the id must fit into uint256, otherwise it is wrapped to the id of another token
+	id, ok := new(big.Int).SetString(tokenId, 10)
+	if !ok || id.Sign() < 0 || id.BitLen() > 256 {
+		return nil, false
+	}
+	return id, true
 }
 
 func ContractAddressFromClassId(ctx context.Context, k ERC721ClassIdKeeper, classId string) (common.Address, error) {
-- 
2.43.0


From 910ade89d20efad31139281ee4cb0d45902e3a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:00 +0000
Subject: [PATCH 23/44] fix: approve the contract of a packet hook however its
 address is written

---
 app/ibc-hooks/receive.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index e4a9fd8..a373c72 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -5,7 +5,6 @@ import (
 	"math/big"
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
-	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/common/hexutil"
 
 	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
@@ -64,7 +63,7 @@ func (h EVMHooks) onRecvIcs20Packet(
 
 	msg.Sender = intermediateSender
 	localDenom := LocalDenom(packet, data.Denom)
-	_, err = h.approveERC20(ctx, intermediateSender, common.HexToAddress(msg.ContractAddr), localDenom, data.Amount)
+	_, err = h.approveERC20(ctx, intermediateSender, msg.ContractAddr, localDenom, data.Amount)
 	if err != nil {
 		return newEmitErrorAcknowledgement(err)
 	}
@@ -76,7 +75,12 @@ func (h EVMHooks) onRecvIcs20Packet(
 	return ack
 }
 
-func (h EVMHooks) approveERC20(ctx sdk.Context, intermediateSender string, contractAddr common.Address, denom, amount string) (*evmtypes.MsgCallResponse, error) {
+func (h EVMHooks) approveERC20(ctx sdk.Context, intermediateSender, contractAddrStr, denom, amount string) (*evmtypes.MsgCallResponse, error) {
+	contractAddr, err := evmtypes.ContractAddressFromString(h.ac, contractAddrStr)
+	if err != nil {
+		return nil, err
+	}
+
 	amt, ok := new(big.Int).SetString(amount, 10)
 	if !ok {
 		return nil, fmt.Errorf("failed to parse amount %s", amount)
@@ -150,7 +154,7 @@ func (h EVMHooks) onRecvIcs721Packet(
 	msg.Sender = intermediateSender
 	localClassId := LocalClassId(packet, data.ClassId)
 	for _, tokenId := range data.TokenIds {
-		_, err = h.approveERC721(ctx, intermediateSender, common.HexToAddress(msg.ContractAddr), localClassId, tokenId)
+		_, err = h.approveERC721(ctx, intermediateSender, msg.ContractAddr, localClassId, tokenId)
 		if err != nil {
 			return newEmitErrorAcknowledgement(err)
 		}
@@ -168,7 +172,12 @@ func (h EVMHooks) execMsg(ctx sdk.Context, msg *evmtypes.MsgCall) (*evmtypes.Msg
 	return evmMsgServer.Call(ctx, msg)
 }
 
-func (h EVMHooks) approveERC721(ctx sdk.Context, intermediateSender string, contractAddr common.Address, classId, tokenId string) (*evmtypes.MsgCallResponse, error) {
+func (h EVMHooks) approveERC721(ctx sdk.Context, intermediateSender, contractAddrStr, classId, tokenId string) (*evmtypes.MsgCallResponse, error) {
+	contractAddr, err := evmtypes.ContractAddressFromString(h.ac, contractAddrStr)
+	if err != nil {
+		return nil, err
+	}
+
 	tid, ok := evmtypes.TokenIdToBigInt(classId, tokenId)
 	if !ok {
 		return nil, evmtypes.ErrInvalidTokenId
-- 
2.43.0


From a58d4ab14b623e829092e8608589c8f05b0af161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:07 +0000
Subject: [PATCH 24/44] fix: let packet hooks receive tokens and NFTs that were
 created on this chain

---
 app/ibc-hooks/receive.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index a373c72..1449860 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -92,7 +92,7 @@ func (h EVMHooks) approveERC20(ctx sdk.Context, intermediateSender, contractAddr
 		return nil, err
 	}
 
-	erc20Addr, err := h.evmKeeper.GetContractAddrByDenom(ctx, denom)
+	erc20Addr, err := evmtypes.DenomToContractAddr(ctx, h.evmKeeper, denom)
 	if err != nil {
 		return nil, err
 	}
@@ -189,7 +189,7 @@ func (h EVMHooks) approveERC721(ctx sdk.Context, intermediateSender, contractAdd
 		return nil, err
 	}
 
-	erc721Addr, err := h.evmKeeper.GetContractAddrByClassId(ctx, classId)
+	erc721Addr, err := evmtypes.ContractAddressFromClassId(ctx, h.evmKeeper, classId)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 540de11565657cda6118a67d4056b7b84e48443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:25 +0000
Subject: [PATCH 25/44] fix: do not panic on packets that ask for a call and to
 be forwarded

---
 app/ibc-hooks/receive.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/app/ibc-hooks/receive.go b/app/ibc-hooks/receive.go
index 1449860..d88ba65 100644
--- a/app/ibc-hooks/receive.go
+++ b/app/ibc-hooks/receive.go
@@ -1,6 +1,7 @@
 package evm_hooks
 
 import (
+	"errors"
 	"fmt"
 	"math/big"
 
@@ -57,7 +58,10 @@ func (h EVMHooks) onRecvIcs20Packet(
 	packet.Data = data.GetBytes()
 
 	ack := im.App.OnRecvPacket(ctx, packet, relayer)
-	if !ack.Success() {
+	if ack == nil {
+		// the funds were passed on by another middleware, so there is nothing to call with
+		return newEmitErrorAcknowledgement(errors.New("evm hook cannot be combined with asynchronous acknowledgement"))
+	} else if !ack.Success() {
 		return ack
 	}
 
@@ -146,7 +150,10 @@ func (h EVMHooks) onRecvIcs721Packet(
 	packet.Data = data.GetBytes(packet.SourcePort)
 
 	ack := im.App.OnRecvPacket(ctx, packet, relayer)
-	if !ack.Success() {
+	if ack == nil {
+		// the funds were passed on by another middleware, so there is nothing to call with
+		return newEmitErrorAcknowledgement(errors.New("evm hook cannot be combined with asynchronous acknowledgement"))
+	} else if !ack.Success() {
 		return ack
 	}
 
-- 
2.43.0


From 0144aa8ca36261b5177ef6d7ca5706690740d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 26/44] fix: keep the precision of numbers in packet hook memos

---
 app/ibc-hooks/util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/app/ibc-hooks/util.go b/app/ibc-hooks/util.go
index c589804..a236da6 100644
--- a/app/ibc-hooks/util.go
+++ b/app/ibc-hooks/util.go
@@ -55,21 +55,21 @@ func validateAndParseMemo(memo string) (
 	hookData HookData,
 	err error,
 ) {
-	isEVMRouted, metadata := jsonStringHasKey(memo, evmHookMemoKey)
+	isEVMRouted, _ = jsonStringHasKey(memo, evmHookMemoKey)
 	if !isEVMRouted {
 		return
 	}
 
-	evmHookRaw := metadata[evmHookMemoKey]
-
-	// parse evm raw bytes to execute message
-	bz, err := json.Marshal(evmHookRaw)
+	// keep the raw bytes, otherwise integers lose precision
+	metadata := make(map[string]json.RawMessage)
+	err = json.Unmarshal([]byte(memo), &metadata)
 	if err != nil {
 		err = errors.Wrap(channeltypes.ErrInvalidPacket, err.Error())
 		return
 	}
 
-	err = json.Unmarshal(bz, &hookData)
+	// parse evm raw bytes to execute message
+	err = json.Unmarshal(metadata[evmHookMemoKey], &hookData)
 	if err != nil {
 		err = errors.Wrap(channeltypes.ErrInvalidPacket, err.Error())
 		return
-- 
2.43.0


From 53fd66679b00e00d44e95557f2dda73fbc1263e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 27/44] fix: delete and keep large values through the index
 cache

---
 indexer/store.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/indexer/store.go b/indexer/store.go
index dee7636..b9baa8e 100644
--- a/indexer/store.go
+++ b/indexer/store.go
@@ -78,9 +78,10 @@ func (c CacheStore) Set(key, value []byte) error {
 	storetypes.AssertValidKey(key)
 	storetypes.AssertValidValue(value)
 
+	// a value which does not fit into the cache is only kept in the store
 	err := c.cache.Set(string(key), value)
 	if err != nil {
-		return errors.Wrap(err, "failed to set cache")
+		_ = c.cache.Delete(string(key))
 	}
 	c.store.Set(key, value)
 
@@ -92,7 +93,7 @@ func (c CacheStore) Delete(key []byte) error {
 	storetypes.AssertValidKey(key)
 
 	err := c.cache.Delete(string(key))
-	if err != nil && errors.IsOf(err, bigcache.ErrEntryNotFound) {
+	if err != nil && !errors.IsOf(err, bigcache.ErrEntryNotFound) {
 		return errors.Wrap(err, "failed to delete cache")
 	}
 	c.store.Delete(key)
-- 
2.43.0


From 15d144096d97235e03c333ca28331fcfff88dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:14 +0000
Subject: [PATCH 28/44] fix: keep the index cache in line with its store under
 concurrent use

---
 indexer/store.go | 61 +++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/indexer/store.go b/indexer/store.go
index b9baa8e..cdb5dd5 100644
--- a/indexer/store.go
+++ b/indexer/store.go
@@ -2,6 +2,7 @@ package indexer
 
 import (
 	"context"
+	"sync"
 
 	corestoretypes "cosmossdk.io/core/store"
 	"cosmossdk.io/errors"
@@ -16,6 +17,10 @@ var _ corestoretypes.KVStore = (*CacheStore)(nil)
 type CacheStore struct {
 	store storetypes.CacheKVStore
 	cache *bigcache.BigCache
+
+	// mtx keeps the cache in line with the store; a reader must not
+	// fill the cache with a value that is being replaced.
+	mtx sync.RWMutex
 }
 
 func NewCacheStore(store storetypes.KVStore, capacity int) *CacheStore {
@@ -36,48 +41,49 @@ func NewCacheStore(store storetypes.KVStore, capacity int) *CacheStore {
 }
 
 // Get returns nil iff key doesn't exist. Errors on nil key.
-func (c CacheStore) Get(key []byte) ([]byte, error) {
+func (c *CacheStore) Get(key []byte) ([]byte, error) {
 	storetypes.AssertValidKey(key)
 
-	if value, err := c.cache.Get(string(key)); err == nil {
-		return value, nil
+	return c.get(key), nil
+}
+
+// get returns the value of the key and fills the cache with it.
+func (c *CacheStore) get(key []byte) []byte {
+	c.mtx.RLock()
+	value, err := c.cache.Get(string(key))
+	c.mtx.RUnlock()
+	if err == nil {
+		return value
 	}
 
+	c.mtx.Lock()
+	defer c.mtx.Unlock()
+
 	// get from store and write to cache
-	value := c.store.Get(key)
+	value = c.store.Get(key)
 	if value == nil {
-		return nil, nil
+		return nil
 	}
 
 	// ignore cache error
 	_ = c.cache.Set(string(key), value)
 
-	return value, nil
+	return value
 }
 
 // Has checks if a key exists. Errors on nil key.
-func (c CacheStore) Has(key []byte) (bool, error) {
-	_, err := c.cache.Get(string(key))
-	if err == nil {
-		return true, nil
-	}
-
-	value := c.store.Get(key)
-	if value == nil {
-		return false, nil
-	}
-
-	// ignore cache error
-	_ = c.cache.Set(string(key), value)
-
-	return true, nil
+func (c *CacheStore) Has(key []byte) (bool, error) {
+	return c.get(key) != nil, nil
 }
 
 // Set sets the key. Errors on nil key or value.
-func (c CacheStore) Set(key, value []byte) error {
+func (c *CacheStore) Set(key, value []byte) error {
 	storetypes.AssertValidKey(key)
 	storetypes.AssertValidValue(value)
 
+	c.mtx.Lock()
+	defer c.mtx.Unlock()
+
 	// a value which does not fit into the cache is only kept in the store
 	err := c.cache.Set(string(key), value)
 	if err != nil {
@@ -89,9 +95,12 @@ func (c CacheStore) Set(key, value []byte) error {
 }
 
 // Delete deletes the key. Errors on nil key.
-func (c CacheStore) Delete(key []byte) error {
+func (c *CacheStore) Delete(key []byte) error {
 	storetypes.AssertValidKey(key)
 
+	c.mtx.Lock()
+	defer c.mtx.Unlock()
+
 	err := c.cache.Delete(string(key))
 	if err != nil && !errors.IsOf(err, bigcache.ErrEntryNotFound) {
 		return errors.Wrap(err, "failed to delete cache")
@@ -107,7 +116,7 @@ func (c CacheStore) Delete(key []byte) error {
 // To iterate over entire domain, use store.Iterator(nil, nil)
 // CONTRACT: No writes may happen within a domain while an iterator exists over it.
 // Exceptionally allowed for cachekv.Store, safe to write in the modules.
-func (c CacheStore) Iterator(start, end []byte) (storetypes.Iterator, error) {
+func (c *CacheStore) Iterator(start, end []byte) (storetypes.Iterator, error) {
 	return c.store.Iterator(start, end), nil
 }
 
@@ -116,10 +125,10 @@ func (c CacheStore) Iterator(start, end []byte) (storetypes.Iterator, error) {
 // Iterator must be closed by caller.
 // CONTRACT: No writes may happen within a domain while an iterator exists over it.
 // Exceptionally allowed for cachekv.Store, safe to write in the modules.
-func (c CacheStore) ReverseIterator(start, end []byte) (storetypes.Iterator, error) {
+func (c *CacheStore) ReverseIterator(start, end []byte) (storetypes.Iterator, error) {
 	return c.store.ReverseIterator(start, end), nil
 }
 
-func (c CacheStore) Write() {
+func (c *CacheStore) Write() {
 	c.store.Write()
 }
-- 
2.43.0


From 1bcee74ff58bea8ef27f92b42d23c910acd13a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 29/44] fix: deliver events to subscribers in order and without
 waiting for slow ones

---
 indexer/abci.go       | 15 ++------
 indexer/indexer.go    | 55 ++++++++++++-----------------
 indexer/mempool.go    |  8 ++---
 indexer/subscriber.go | 81 +++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 111 insertions(+), 48 deletions(-)
 create mode 100644 indexer/subscriber.go

diff --git a/indexer/abci.go b/indexer/abci.go
index c8b6ef0..625ac0b 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -3,7 +3,6 @@ package indexer
 import (
 	"context"
 	"math/big"
-	"time"
 
 	abci "github.com/cometbft/cometbft/abci/types"
 	comettypes "github.com/cometbft/cometbft/types"
@@ -169,7 +168,7 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 			return err
 		}
 
-		if len(e.logsChans) > 0 && len(receipt.Logs) > 0 {
+		if len(receipt.Logs) > 0 {
 			for idx, log := range receipt.Logs {
 				// fill in missing fields before emitting
 				log.Index = uint(idx)
@@ -193,16 +192,8 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		return err
 	}
 
-	// emit block event in a goroutine
-	done := make(chan struct{})
-	go e.blockEventsEmitter(&blockEvents{header: &blockHeader, logs: blockLogs}, done)
-	go func() {
-		select {
-		case <-done:
-		case <-time.After(5 * time.Second):
-			e.logger.Error("block event emitter timed out")
-		}
-	}()
+	// emit block event
+	e.emitBlockEvents(&blockEvents{header: &blockHeader, logs: blockLogs})
 
 	// TODO - currently state changes are not supported in abci listener, so we track cosmos block hash at x/evm preblocker.
 	// - https://github.com/cosmos/cosmos-sdk/issues/22246
diff --git a/indexer/indexer.go b/indexer/indexer.go
index 9813f0f..66b4953 100644
--- a/indexer/indexer.go
+++ b/indexer/indexer.go
@@ -2,6 +2,7 @@ package indexer
 
 import (
 	"context"
+	"sync"
 
 	"cosmossdk.io/collections"
 	corestoretypes "cosmossdk.io/core/store"
@@ -70,9 +71,8 @@ type EVMIndexerImpl struct {
 	TxHashToCosmosTxHash     collections.Map[[]byte, []byte]
 	CosmosTxHashToTxHash     collections.Map[[]byte, []byte]
 
-	blockChans   []chan *coretypes.Header
-	logsChans    []chan []*coretypes.Log
-	pendingChans []chan *rpctypes.RPCTransaction
+	subscribersMut sync.Mutex
+	subscribers    []*subscriber
 }
 
 func NewEVMIndexer(
@@ -112,10 +112,6 @@ func NewEVMIndexer(
 		BlockHashToNumberMap:     collections.NewMap(sb, prefixBlockHashToNumber, "block_hash_to_number", collections.BytesKey, collections.Uint64Value),
 		TxHashToCosmosTxHash:     collections.NewMap(sb, prefixTxHashToCosmosTxHash, "tx_hash_to_cosmos_tx_hash", collections.BytesKey, collections.BytesValue),
 		CosmosTxHashToTxHash:     collections.NewMap(sb, prefixCosmosTxHashToTxHash, "cosmos_tx_hash_to_tx_hash", collections.BytesKey, collections.BytesValue),
-
-		blockChans:   nil,
-		logsChans:    nil,
-		pendingChans: nil,
 	}
 
 	schema, err := sb.Build()
@@ -129,14 +125,21 @@ func NewEVMIndexer(
 
 // Subscribe returns channels to receive blocks and logs.
 func (e *EVMIndexerImpl) Subscribe() (chan *coretypes.Header, chan []*coretypes.Log, chan *rpctypes.RPCTransaction) {
-	blockChan := make(chan *coretypes.Header)
-	logsChan := make(chan []*coretypes.Log)
-	pendingChan := make(chan *rpctypes.RPCTransaction)
-
-	e.blockChans = append(e.blockChans, blockChan)
-	e.logsChans = append(e.logsChans, logsChan)
-	e.pendingChans = append(e.pendingChans, pendingChan)
-	return blockChan, logsChan, pendingChan
+	s := newSubscriber()
+
+	e.subscribersMut.Lock()
+	e.subscribers = append(e.subscribers, s)
+	e.subscribersMut.Unlock()
+
+	return s.blockChan, s.logsChan, s.pendingChan
+}
+
+// currentSubscribers returns the subscribers at the time of the call.
+func (e *EVMIndexerImpl) currentSubscribers() []*subscriber {
+	e.subscribersMut.Lock()
+	defer e.subscribersMut.Unlock()
+
+	return append([]*subscriber(nil), e.subscribers...)
 }
 
 // blockEvents is a struct to emit block events.
@@ -145,22 +148,10 @@ type blockEvents struct {
 	logs   [][]*coretypes.Log
 }
 
-// blockEventsEmitter emits block events to subscribers.
-func (e *EVMIndexerImpl) blockEventsEmitter(blockEvents *blockEvents, done chan struct{}) {
-	if blockEvents == nil {
-		return
-	}
-	for _, logs := range blockEvents.logs {
-		for _, logsChan := range e.logsChans {
-			logsChan <- logs
-		}
-	}
-	for _, logsChan := range e.logsChans {
-		logsChan <- []*coretypes.Log{}
+// emitBlockEvents queues block events for all subscribers; they receive the
+// events in block order and at their own speed.
+func (e *EVMIndexerImpl) emitBlockEvents(blockEvents *blockEvents) {
+	for _, s := range e.currentSubscribers() {
+		s.emitBlockEvents(blockEvents)
 	}
-	for _, blockChan := range e.blockChans {
-		blockChan <- blockEvents.header
-	}
-
-	close(done)
 }
diff --git a/indexer/mempool.go b/indexer/mempool.go
index 87a4848..db3cdc3 100644
--- a/indexer/mempool.go
+++ b/indexer/mempool.go
@@ -30,7 +30,7 @@ func (m *MempoolWrapper) CountTx() int {
 
 // Insert implements mempool.Mempool.
 func (m *MempoolWrapper) Insert(ctx context.Context, tx sdk.Tx) error {
-	if len(m.indexer.pendingChans) > 0 {
+	if subscribers := m.indexer.currentSubscribers(); len(subscribers) > 0 {
 		txUtils := evmkeeper.NewTxUtils(m.indexer.evmKeeper)
 		ethTx, _, err := txUtils.ConvertCosmosTxToEthereumTx(ctx, tx)
 		if err != nil {
@@ -43,9 +43,9 @@ func (m *MempoolWrapper) Insert(ctx context.Context, tx sdk.Tx) error {
 			chainId := evmtypes.ConvertCosmosChainIDToEthereumChainID(sdkCtx.ChainID())
 			rpcTx := rpctypes.NewRPCTransaction(ethTx, common.Hash{}, 0, 0, chainId)
 
-			// emit the transaction to all pending channels
-			for _, pendingChan := range m.indexer.pendingChans {
-				pendingChan <- rpcTx
+			// emit the transaction to all subscribers
+			for _, s := range subscribers {
+				s.emitPendingTx(rpcTx)
 			}
 		}
 	}
diff --git a/indexer/subscriber.go b/indexer/subscriber.go
new file mode 100644
index 0000000..938e0c2
--- /dev/null
+++ b/indexer/subscriber.go
@@ -0,0 +1,81 @@
+package indexer
+
+import (
+	"sync"
+
+	coretypes "github.com/ethereum/go-ethereum/core/types"
+
+	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"
+)
+
+// queue hands over values one by one, in the order they were pushed,
+// without making the one who pushes wait for the receiver.
+type queue[T any] struct {
+	mut     sync.Mutex
+	running bool
+	items   []T
+}
+
+// push appends the value; deliver is called for it after all values before it were delivered.
+func (q *queue[T]) push(item T, deliver func(T)) {
+	q.mut.Lock()
+	defer q.mut.Unlock()
+
+	q.items = append(q.items, item)
+	if q.running {
+		return
+	}
+
+	q.running = true
+	go func() {
+		for {
+			q.mut.Lock()
+			if len(q.items) == 0 {
+				q.running = false
+				q.mut.Unlock()
+				return
+			}
+			item := q.items[0]
+			q.items = q.items[1:]
+			q.mut.Unlock()
+
+			deliver(item)
+		}
+	}()
+}
+
+// subscriber receives the events of blocks and pending transactions.
+type subscriber struct {
+	blockChan   chan *coretypes.Header
+	logsChan    chan []*coretypes.Log
+	pendingChan chan *rpctypes.RPCTransaction
+
+	blockEvents queue[*blockEvents]
+	pendingTxs  queue[*rpctypes.RPCTransaction]
+}
+
+func newSubscriber() *subscriber {
+	return &subscriber{
+		blockChan:   make(chan *coretypes.Header),
+		logsChan:    make(chan []*coretypes.Log),
+		pendingChan: make(chan *rpctypes.RPCTransaction),
+	}
+}
+
+// emitBlockEvents queues the events of a block for the subscriber.
+func (s *subscriber) emitBlockEvents(events *blockEvents) {
+	s.blockEvents.push(events, func(events *blockEvents) {
+		for _, logs := range events.logs {
+			s.logsChan <- logs
+		}
+		s.logsChan <- []*coretypes.Log{}
+		s.blockChan <- events.header
+	})
+}
+
+// emitPendingTx queues a pending transaction for the subscriber.
+func (s *subscriber) emitPendingTx(tx *rpctypes.RPCTransaction) {
+	s.pendingTxs.push(tx, func(tx *rpctypes.RPCTransaction) {
+		s.pendingChan <- tx
+	})
+}
-- 
2.43.0


From c30c406a2cceef3dcea449ec684f83f5dcb88372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 30/44] fix: report a transaction as pending once the mempool
 accepted it

---
 indexer/mempool.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/indexer/mempool.go b/indexer/mempool.go
index db3cdc3..1340331 100644
--- a/indexer/mempool.go
+++ b/indexer/mempool.go
@@ -30,12 +30,17 @@ func (m *MempoolWrapper) CountTx() int {
 
 // Insert implements mempool.Mempool.
 func (m *MempoolWrapper) Insert(ctx context.Context, tx sdk.Tx) error {
+	if err := m.mempool.Insert(ctx, tx); err != nil {
+		return err
+	}
+
 	if subscribers := m.indexer.currentSubscribers(); len(subscribers) > 0 {
 		txUtils := evmkeeper.NewTxUtils(m.indexer.evmKeeper)
 		ethTx, _, err := txUtils.ConvertCosmosTxToEthereumTx(ctx, tx)
 		if err != nil {
+			// the transaction is in the mempool, there is just nothing to report
 			m.indexer.logger.Error("failed to convert CosmosTx to EthTx", "err", err)
-			return err
+			return nil
 		}
 
 		if ethTx != nil {
@@ -50,7 +55,7 @@ func (m *MempoolWrapper) Insert(ctx context.Context, tx sdk.Tx) error {
 		}
 	}
 
-	return m.mempool.Insert(ctx, tx)
+	return nil
 }
 
 // Remove implements mempool.Mempool.
-- 
2.43.0


From b7154f44bc3f293231951e97f23c7a1ec704a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:16 +0000
Subject: [PATCH 31/44] fix: count the installation of block and pending
 filters as use

---
 jsonrpc/namespaces/eth/filters/api.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jsonrpc/namespaces/eth/filters/api.go b/jsonrpc/namespaces/eth/filters/api.go
index 092c837..ac2a359 100644
--- a/jsonrpc/namespaces/eth/filters/api.go
+++ b/jsonrpc/namespaces/eth/filters/api.go
@@ -188,9 +188,10 @@ func (api *FilterAPI) NewPendingTransactionFilter(fullTx *bool) (rpc.ID, error)
 
 	api.filtersMut.Lock()
 	api.filters[id] = &filter{
-		txs:    make([]*rpctypes.RPCTransaction, 0),
-		hashes: make([]common.Hash, 0),
-		s:      s,
+		lastUsed: time.Now(),
+		txs:      make([]*rpctypes.RPCTransaction, 0),
+		hashes:   make([]common.Hash, 0),
+		s:        s,
 	}
 	api.filtersMut.Unlock()
 
@@ -241,8 +242,9 @@ func (api *FilterAPI) NewBlockFilter() (rpc.ID, error) {
 
 	api.filtersMut.Lock()
 	api.filters[id] = &filter{
-		hashes: make([]common.Hash, 0),
-		s:      s,
+		lastUsed: time.Now(),
+		hashes:   make([]common.Hash, 0),
+		s:        s,
 	}
 	api.filtersMut.Unlock()
 
-- 
2.43.0


From 6177933b17fc208052d211d981dbadfb70834580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:57 +0000
Subject: [PATCH 32/44] fix: look up the account mutex to release under the
 lock of the table

---
 jsonrpc/backend/backend.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonrpc/backend/backend.go b/jsonrpc/backend/backend.go
index c5933dd..a8ac089 100644
--- a/jsonrpc/backend/backend.go
+++ b/jsonrpc/backend/backend.go
@@ -92,7 +92,10 @@ func (b *JSONRPCBackend) acquireAccMut(senderHex string) {
 // and decrements the reference count. If the reference count reaches zero,
 // the mutex is deleted.
 func (b *JSONRPCBackend) releaseAccMut(senderHex string) {
+	b.mut.Lock()
 	accMut := b.accMuts[senderHex]
+	b.mut.Unlock()
+
 	accMut.mut.Unlock()
 
 	// critical section for rc and delete
-- 
2.43.0


From 71aea48e495e477a44cb498e04a8acbf565fd89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:14 +0000
Subject: [PATCH 33/44] fix: do not fail a transaction because a queued one
 after it failed

---
 jsonrpc/backend/tx.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index e7d4bcc..ca06e10 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -95,11 +95,15 @@ func (b *JSONRPCBackend) SendTx(tx *coretypes.Transaction) error {
 
 			b.logger.Debug("broadcast queued tx", "sender", senderHex, "txSeq", accSeq)
 			res, err := b.clientCtx.BroadcastTxSync(txBytes)
-			if err != nil {
-				return err
+			if err == nil && res.Code != 0 {
+				err = sdkerrors.ErrInvalidRequest.Wrapf("tx failed with code: %d: raw_log: %s", res.Code, res.RawLog)
 			}
-			if res.Code != 0 {
-				return sdkerrors.ErrInvalidRequest.Wrapf("tx failed with code: %d: raw_log: %s", res.Code, res.RawLog)
+			if err != nil && accSeq != txSeq {
+				// a queued tx failed, the given tx did not
+				b.logger.Error("failed to broadcast queued tx", "sender", senderHex, "txSeq", accSeq, "err", err)
+				break
+			} else if err != nil {
+				return err
 			}
 		} else {
 			break
-- 
2.43.0


From 9b2933b5335173ffd043aac7377a946b637c42ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:48 +0000
Subject: [PATCH 34/44] fix: do not panic on transactions that omit the public
 key

---
 x/evm/keeper/txutils.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/x/evm/keeper/txutils.go b/x/evm/keeper/txutils.go
index c60923d..601fb41 100644
--- a/x/evm/keeper/txutils.go
+++ b/x/evm/keeper/txutils.go
@@ -236,6 +236,10 @@ func (u *TxUtils) ConvertCosmosTxToEthereumTx(ctx context.Context, sdkTx sdk.Tx)
 	typeUrl := sdk.MsgTypeURL(msg)
 
 	sig := sigs[0]
+	if sig.PubKey == nil {
+		// the public key can be omitted from non-EVM transactions
+		return nil, nil, nil
+	}
 	cosmosSender := sig.PubKey.Address()
 	if len(cosmosSender.Bytes()) != common.AddressLength {
 		return nil, nil, nil
@@ -429,6 +433,10 @@ func (u *TxUtils) IsEthereumTx(ctx context.Context, sdkTx sdk.Tx) (bool, error)
 	}
 
 	sig := sigs[0]
+	if sig.PubKey == nil {
+		// the public key can be omitted from non-EVM transactions
+		return false, nil
+	}
 	cosmosSender := sig.PubKey.Address()
 	if len(cosmosSender.Bytes()) != common.AddressLength {
 		return false, nil
-- 
2.43.0


From f363be29b9dad8f44cd38d9dbad4a3f0660727d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:48 +0000
Subject: [PATCH 35/44] fix: list as many pending transactions as the pool
 content does

---
 jsonrpc/backend/tx.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index ca06e10..be58a9e 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -343,7 +343,9 @@ func (b *JSONRPCBackend) PendingTransactions() ([]*rpctypes.RPCTransaction, erro
 		return nil, errors.New("mempool client not available")
 	}
 
-	res, err := mc.UnconfirmedTxs(b.ctx, nil)
+	// CometBFT returns only 30 txs when the limit is not set
+	limit := int(100)
+	res, err := mc.UnconfirmedTxs(b.ctx, &limit)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From dbe731a019d0894e3ddee0e6fc1a064e61394e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:52 +0000
Subject: [PATCH 36/44] fix: index executed transactions only, with positions
 counted from zero and block-wide log indices

---
 indexer/abci.go            | 40 ++++++++++++++++++++++++--------------
 jsonrpc/backend/filters.go |  4 ++--
 jsonrpc/backend/tx.go      | 12 ++++++++++--
 3 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/indexer/abci.go b/indexer/abci.go
index 625ac0b..0a5b405 100644
--- a/indexer/abci.go
+++ b/indexer/abci.go
@@ -49,14 +49,22 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 
 		ethTx, _, err := keeper.NewTxUtils(e.evmKeeper).ConvertCosmosTxToEthereumTx(sdkCtx, tx)
 		if err != nil {
+			// one malformed tx must not keep the block from being indexed
 			e.logger.Error("failed to convert CosmosTx to EthTx", "err", err)
-			return err
+			continue
 		}
 		if ethTx == nil {
 			continue
 		}
 
 		txResult := res.TxResults[idx]
+
+		// skip the tx rejected by the ante handler; it has not been executed,
+		// its nonce has not been used and it can still be included later.
+		if txResult.Code != abci.CodeTypeOK && len(txResult.Events) == 0 {
+			continue
+		}
+
 		txStatus := coretypes.ReceiptStatusSuccessful
 		if txResult.Code != abci.CodeTypeOK {
 			txStatus = coretypes.ReceiptStatusFailed
@@ -76,7 +84,6 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		gasUsed := uint64(txResult.GasUsed)
 		cumulativeGasUsed += gasUsed
 
-		txIndex++
 		ethTxs = append(ethTxs, ethTx)
 
 		// extract logs and contract address from tx results
@@ -87,6 +94,7 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		}
 
 		receipt := coretypes.Receipt{
+			Type:              ethTx.Type(),
 			PostState:         nil,
 			Status:            txStatus,
 			CumulativeGasUsed: cumulativeGasUsed,
@@ -108,6 +116,7 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 		}
 
 		receipts = append(receipts, &receipt)
+		txIndex++
 	}
 
 	chainId := types.ConvertCosmosChainIDToEthereumChainID(sdkCtx.ChainID())
@@ -147,10 +156,24 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 
 	blockHash := blockHeader.Hash()
 	blockLogs := make([][]*coretypes.Log, 0, len(ethTxs))
+	logIndex := uint(0)
 	for txIndex, ethTx := range ethTxs {
 		txHash := ethTx.Hash()
 		receipt := receipts[txIndex]
 
+		// fill in missing fields before storing and emitting
+		for _, log := range receipt.Logs {
+			log.Index = logIndex
+			log.BlockHash = blockHash
+			log.BlockNumber = uint64(blockHeight)
+			log.TxHash = txHash
+			log.TxIndex = receipt.TransactionIndex
+			logIndex++
+		}
+		if len(receipt.Logs) > 0 {
+			blockLogs = append(blockLogs, receipt.Logs)
+		}
+
 		// store tx
 		rpcTx := rpctypes.NewRPCTransaction(ethTx, blockHash, uint64(blockHeight), uint64(receipt.TransactionIndex), chainId)
 		if err := e.TxMap.Set(sdkCtx, txHash.Bytes(), *rpcTx); err != nil {
@@ -167,19 +190,6 @@ func (e *EVMIndexerImpl) ListenFinalizeBlock(ctx context.Context, req abci.Reque
 			e.logger.Error("failed to store blockAndIndexToTxHash", "err", err)
 			return err
 		}
-
-		if len(receipt.Logs) > 0 {
-			for idx, log := range receipt.Logs {
-				// fill in missing fields before emitting
-				log.Index = uint(idx)
-				log.BlockHash = blockHash
-				log.BlockNumber = uint64(blockHeight)
-				log.TxHash = txHash
-				log.TxIndex = uint(txIndex)
-			}
-
-			blockLogs = append(blockLogs, receipt.Logs)
-		}
 	}
 
 	// index block header
diff --git a/jsonrpc/backend/filters.go b/jsonrpc/backend/filters.go
index 98e2d53..ee975b5 100644
--- a/jsonrpc/backend/filters.go
+++ b/jsonrpc/backend/filters.go
@@ -35,11 +35,11 @@ func (b *JSONRPCBackend) GetLogsByHeight(height uint64) ([]*coretypes.Log, error
 			return nil, err
 		}
 		logs := receipt.Logs
-		for idx, log := range logs {
+		fillLogIndex(logs)
+		for _, log := range logs {
 			log.BlockHash = blockHeader.Hash()
 			log.BlockNumber = height
 			log.TxHash = tx.Hash
-			log.Index = uint(idx)
 			log.TxIndex = receipt.TransactionIndex
 		}
 		blockLogs = append(blockLogs, logs...)
diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index be58a9e..c96659d 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -437,10 +437,18 @@ func (b *JSONRPCBackend) GetBlockReceipts(ctx context.Context, blockNrOrHash rpc
 	return result, nil
 }
 
+// fillLogIndex numbers the logs of a transaction, which follow each other in
+// the block.
+func fillLogIndex(logs []*coretypes.Log) {
+	for idx, log := range logs {
+		log.Index = logs[0].Index + uint(idx)
+	}
+}
+
 // marshalReceipt marshals a transaction receipt into a JSON object.
 func marshalReceipt(receipt *coretypes.Receipt, tx *rpctypes.RPCTransaction) map[string]interface{} {
-	for idx, log := range receipt.Logs {
-		log.Index = uint(idx)
+	fillLogIndex(receipt.Logs)
+	for _, log := range receipt.Logs {
 		if tx.BlockHash != nil {
 			log.BlockHash = *tx.BlockHash
 		}
-- 
2.43.0


From fbcf888d63ece9458c3e6a46291f9f445227f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:52 +0000
Subject: [PATCH 37/44] fix: resolve every block selector of the JSON-RPC
 queries to its own block

---
 jsonrpc/backend/eth.go |  2 +-
 jsonrpc/backend/gas.go | 25 ++++++++-----------------
 jsonrpc/backend/tx.go  | 25 +++++++++++++++++++------
 3 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/jsonrpc/backend/eth.go b/jsonrpc/backend/eth.go
index ac76657..4858873 100644
--- a/jsonrpc/backend/eth.go
+++ b/jsonrpc/backend/eth.go
@@ -25,7 +25,7 @@ func (b *JSONRPCBackend) GetBalance(address common.Address, blockNrOrHash rpc.Bl
 		return nil, err
 	}
 
-	feeDenom, decimals, err := b.feeDenomWithDecimals()
+	feeDenom, decimals, err := b.feeDenomWithDecimalsAt(queryCtx)
 	if err != nil {
 		return nil, err
 	}
diff --git a/jsonrpc/backend/gas.go b/jsonrpc/backend/gas.go
index bb4192e..c566824 100644
--- a/jsonrpc/backend/gas.go
+++ b/jsonrpc/backend/gas.go
@@ -1,6 +1,7 @@
 package backend
 
 import (
+	"context"
 	"errors"
 	"math/big"
 
@@ -90,37 +91,27 @@ func (b *JSONRPCBackend) EstimateGas(args rpctypes.TransactionArgs, blockNrOrHas
 	return hexutil.Uint64(gasInfo.GasUsed), nil
 }
 
-func (b *JSONRPCBackend) feeDenom() (string, error) {
+func (b *JSONRPCBackend) feeDenomWithDecimals() (string, uint8, error) {
 	queryCtx, err := b.getQueryCtx()
 	if err != nil {
-		return "", err
-	}
-
-	params, err := b.app.EVMKeeper.Params.Get(queryCtx)
-	if err != nil {
-		return "", err
+		return "", 0, err
 	}
 
-	return params.FeeDenom, nil
+	return b.feeDenomWithDecimalsAt(queryCtx)
 }
 
-func (b *JSONRPCBackend) feeDenomWithDecimals() (string, uint8, error) {
-	feeDenom, err := b.feeDenom()
-	if err != nil {
-		return "", 0, err
-	}
-
-	queryCtx, err := b.getQueryCtx()
+func (b *JSONRPCBackend) feeDenomWithDecimalsAt(queryCtx context.Context) (string, uint8, error) {
+	params, err := b.app.EVMKeeper.Params.Get(queryCtx)
 	if err != nil {
 		return "", 0, err
 	}
 
-	decimals, err := b.app.EVMKeeper.ERC20Keeper().GetDecimals(queryCtx, feeDenom)
+	decimals, err := b.app.EVMKeeper.ERC20Keeper().GetDecimals(queryCtx, params.FeeDenom)
 	if err != nil {
 		return "", 0, err
 	}
 
-	return feeDenom, decimals, nil
+	return params.FeeDenom, decimals, nil
 }
 
 func (b *JSONRPCBackend) GasPrice() (*hexutil.Big, error) {
diff --git a/jsonrpc/backend/tx.go b/jsonrpc/backend/tx.go
index c96659d..c12b891 100644
--- a/jsonrpc/backend/tx.go
+++ b/jsonrpc/backend/tx.go
@@ -125,7 +125,9 @@ func (b *JSONRPCBackend) getQueryCtxWithHeight(height uint64) (context.Context,
 	if err != nil {
 		return nil, err
 	}
-	if height >= uint64(num) {
+	if height > uint64(num) {
+		return nil, fmt.Errorf("block %d not found; latest block is %d", height, uint64(num))
+	} else if height == uint64(num) {
 		height = 0
 	}
 
@@ -179,12 +181,12 @@ func (b *JSONRPCBackend) GetTransactionCount(address common.Address, blockNrOrHa
 	if blockNumber == rpc.PendingBlockNumber {
 		queryCtx = b.app.GetContextForCheckTx(nil)
 	} else {
-		if blockNumber < 0 {
-			blockNumber = 0
+		height, err := b.resolveBlockNr(blockNumber)
+		if err != nil {
+			return nil, err
 		}
 
-		var err error
-		queryCtx, err = b.getQueryCtxWithHeight(uint64(blockNumber.Int64()))
+		queryCtx, err = b.getQueryCtxWithHeight(height)
 		if err != nil {
 			return nil, err
 		}
@@ -257,7 +259,11 @@ func (b *JSONRPCBackend) GetTransactionByBlockNumberAndIndex(blockNum rpc.BlockN
 		return nil, err
 	}
 
-	number := uint64(blockNum.Int64())
+	number, err := b.resolveBlockNr(blockNum)
+	if err != nil {
+		return nil, err
+	}
+
 	rpcTx, err := b.app.EVMIndexer().TxByBlockAndIndex(queryCtx, number, uint64(idx))
 	if err != nil && errors.Is(err, collections.ErrNotFound) {
 		return nil, nil
@@ -415,6 +421,13 @@ func (b *JSONRPCBackend) GetBlockReceipts(ctx context.Context, blockNrOrHash rpc
 		return nil, err
 	}
 
+	header, err := b.GetHeaderByNumber(rpc.BlockNumber(blockNumber))
+	if err != nil {
+		return nil, err
+	} else if header == nil {
+		return nil, nil
+	}
+
 	txs, err := b.getBlockTransactions(blockNumber)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 353dcba33683906935d482023facf75a9ffd5ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:41 +0000
Subject: [PATCH 38/44] fix: report each block's own base fee in the fee
 history

---
 jsonrpc/backend/feehistory.go | 62 ++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/jsonrpc/backend/feehistory.go b/jsonrpc/backend/feehistory.go
index ee25fff..1fa4958 100644
--- a/jsonrpc/backend/feehistory.go
+++ b/jsonrpc/backend/feehistory.go
@@ -9,12 +9,10 @@ import (
 	"sync/atomic"
 
 	"github.com/ethereum/go-ethereum/common"
-	"github.com/ethereum/go-ethereum/consensus/misc/eip1559"
 	coretypes "github.com/ethereum/go-ethereum/core/types"
 	"github.com/ethereum/go-ethereum/rpc"
 
 	rpctypes "github.com/initia-labs/minievm/jsonrpc/types"
-	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
 const (
@@ -44,11 +42,11 @@ type cacheKey struct {
 
 // processedFees contains the results of a processed block.
 type processedFees struct {
-	reward                       []*big.Int
-	baseFee, nextBaseFee         *big.Int
-	gasUsedRatio                 float64
-	blobGasUsedRatio             float64
-	blobBaseFee, nextBlobBaseFee *big.Int
+	reward           []*big.Int
+	baseFee          *big.Int
+	gasUsedRatio     float64
+	blobGasUsedRatio float64
+	blobBaseFee      *big.Int
 }
 
 // txGasAndReward is sorted in ascending order based on reward
@@ -167,8 +165,8 @@ func (b *JSONRPCBackend) FeeHistory(blocks uint64, unresolvedLastBlock rpc.Block
 		}
 		i := fees.blockNumber - oldestBlock
 		if fees.results.baseFee != nil {
-			reward[i], baseFee[i], baseFee[i+1], gasUsedRatio[i] = fees.results.reward, fees.results.baseFee, fees.results.nextBaseFee, fees.results.gasUsedRatio
-			blobGasUsedRatio[i], blobBaseFee[i], blobBaseFee[i+1] = fees.results.blobGasUsedRatio, fees.results.blobBaseFee, fees.results.nextBlobBaseFee
+			reward[i], baseFee[i], gasUsedRatio[i] = fees.results.reward, fees.results.baseFee, fees.results.gasUsedRatio
+			blobGasUsedRatio[i], blobBaseFee[i] = fees.results.blobGasUsedRatio, fees.results.blobBaseFee
 		} else {
 			// getting no block and no error means we are requesting into the future (might happen because of a reorg)
 			if i < firstMissing {
@@ -186,9 +184,33 @@ func (b *JSONRPCBackend) FeeHistory(blocks uint64, unresolvedLastBlock rpc.Block
 	}
 	baseFee, gasUsedRatio = baseFee[:firstMissing+1], gasUsedRatio[:firstMissing]
 	blobBaseFee, blobGasUsedRatio = blobBaseFee[:firstMissing+1], blobGasUsedRatio[:firstMissing]
+
+	// the base fee does not depend on the gas usage of the previous block
+	if baseFee[firstMissing], err = b.baseFeeOf(oldestBlock + firstMissing); err != nil {
+		return common.Big0, nil, nil, nil, nil, nil, err
+	}
+	blobBaseFee[firstMissing] = new(big.Int)
 	return new(big.Int).SetUint64(oldestBlock), reward, baseFee, gasUsedRatio, blobBaseFee, blobGasUsedRatio, nil
 }
 
+// baseFeeOf returns the base fee of the given block; the current one if the
+// block does not exist yet.
+func (b *JSONRPCBackend) baseFeeOf(blockNumber uint64) (*big.Int, error) {
+	header, err := b.GetHeaderByNumber(rpc.BlockNumber(blockNumber))
+	if err != nil {
+		return nil, err
+	} else if header != nil && header.BaseFee != nil {
+		return header.BaseFee, nil
+	}
+
+	queryCtx, err := b.getQueryCtx()
+	if err != nil {
+		return nil, err
+	}
+
+	return b.app.EVMKeeper.BaseFee(queryCtx)
+}
+
 func (b *JSONRPCBackend) resolveBlockRange(reqEnd rpc.BlockNumber, blocks uint64) (uint64, uint64, error) {
 	var (
 		headBlock *coretypes.Header
@@ -198,6 +220,8 @@ func (b *JSONRPCBackend) resolveBlockRange(reqEnd rpc.BlockNumber, blocks uint64
 	// Get the chain's current head.
 	if headBlock, err = b.GetHeaderByNumber(rpc.LatestBlockNumber); err != nil {
 		return 0, 0, err
+	} else if headBlock == nil {
+		return 0, 0, nil
 	}
 	head := rpc.BlockNumber(headBlock.Number.Uint64())
 
@@ -215,9 +239,13 @@ func (b *JSONRPCBackend) resolveBlockRange(reqEnd rpc.BlockNumber, blocks uint64
 	if blocks == 0 {
 		return 0, 0, nil
 	}
+	// the first block is the block 1
+	if reqEnd == 0 {
+		reqEnd = 1
+	}
 	// Ensure not trying to retrieve before genesis.
-	if uint64(reqEnd+1) < blocks {
-		blocks = uint64(reqEnd + 1)
+	if uint64(reqEnd) < blocks {
+		blocks = uint64(reqEnd)
 	}
 	return uint64(reqEnd), blocks, nil
 }
@@ -226,21 +254,11 @@ func (b *JSONRPCBackend) resolveBlockRange(reqEnd rpc.BlockNumber, blocks uint64
 // the block field filled in, retrieves the block from the backend if not present yet and
 // fills in the rest of the fields.
 func (b *JSONRPCBackend) processBlock(bf *blockFees, percentiles []float64) {
-	ctx, err := b.app.CreateQueryContext(0, false)
-	if err != nil {
-		bf.err = err
-		return
-	}
-
-	config := evmtypes.DefaultChainConfig(ctx)
-
-	// Fill in base fee and next base fee.
+	// Fill in base fee.
 	if bf.results.baseFee = bf.header.BaseFee; bf.results.baseFee == nil {
 		bf.results.baseFee = new(big.Int)
 	}
-	bf.results.nextBaseFee = eip1559.CalcBaseFee(config, bf.header)
 	bf.results.blobBaseFee = new(big.Int)
-	bf.results.nextBlobBaseFee = new(big.Int)
 
 	// Compute gas used ratio for normal and blob gas.
 	bf.results.gasUsedRatio = float64(bf.header.GasUsed) / float64(bf.header.GasLimit)
-- 
2.43.0


From 8adc548bb0dfbff8dcaf1be07cfc41f73f3d7168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:41 +0000
Subject: [PATCH 39/44] fix: do not mistake an unknown or missing block for
 another in log queries

---
 jsonrpc/namespaces/eth/filters/filter.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonrpc/namespaces/eth/filters/filter.go b/jsonrpc/namespaces/eth/filters/filter.go
index 0db7e6c..38fe343 100644
--- a/jsonrpc/namespaces/eth/filters/filter.go
+++ b/jsonrpc/namespaces/eth/filters/filter.go
@@ -74,7 +74,7 @@ func (f *Filter) Logs(ctx context.Context) ([]*coretypes.Log, error) {
 	var err error
 
 	// If we're doing singleton block filtering, execute and return
-	if f.block != nil && *f.block != (common.Hash{}) {
+	if f.block != nil {
 		header, err := f.backend.GetHeaderByHash(*f.block)
 		if err != nil {
 			return nil, fmt.Errorf("failed to fetch block header by hash %s: %w", f.block, err)
@@ -166,9 +166,12 @@ func (f *Filter) rangeLogsAsync(ctx context.Context) (chan *coretypes.Log, chan
 func (f *Filter) unindexedLogs(ctx context.Context, end uint64, logChan chan *coretypes.Log) error {
 	for ; f.begin <= int64(end); f.begin++ {
 		header, err := f.backend.GetHeaderByNumber(rpc.BlockNumber(f.begin))
-		if header == nil || err != nil {
+		if err != nil {
 			return err
 		}
+		if header == nil {
+			return fmt.Errorf("block %d is not indexed", f.begin)
+		}
 		found, err := f.blockLogs(header)
 		if err != nil {
 			return err
-- 
2.43.0


From 686d7742d130dfa4046bb1d51bbc9090b313e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:52 +0000
Subject: [PATCH 40/44] fix: write the index of a block at once

---
 indexer/store.go | 61 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 4 deletions(-)

diff --git a/indexer/store.go b/indexer/store.go
index cdb5dd5..420baa0 100644
--- a/indexer/store.go
+++ b/indexer/store.go
@@ -7,16 +7,41 @@ import (
 	corestoretypes "cosmossdk.io/core/store"
 	"cosmossdk.io/errors"
 	cachekv "cosmossdk.io/store/cachekv"
+	"cosmossdk.io/store/dbadapter"
 	storetypes "cosmossdk.io/store/types"
 
 	bigcache "github.com/allegro/bigcache/v3"
+	dbm "github.com/cosmos/cosmos-db"
 )
 
 var _ corestoretypes.KVStore = (*CacheStore)(nil)
 
+// batchStore collects the writes in the batch while there is one.
+type batchStore struct {
+	storetypes.KVStore
+	batch dbm.Batch
+}
+
+func (s *batchStore) Set(key, value []byte) {
+	if s.batch == nil {
+		s.KVStore.Set(key, value)
+	} else if err := s.batch.Set(key, value); err != nil {
+		panic(err)
+	}
+}
+
+func (s *batchStore) Delete(key []byte) {
+	if s.batch == nil {
+		s.KVStore.Delete(key)
+	} else if err := s.batch.Delete(key); err != nil {
+		panic(err)
+	}
+}
+
 type CacheStore struct {
-	store storetypes.CacheKVStore
-	cache *bigcache.BigCache
+	parent *batchStore
+	store  storetypes.CacheKVStore
+	cache  *bigcache.BigCache
 
 	// mtx keeps the cache in line with the store; a reader must not
 	// fill the cache with a value that is being replaced.
@@ -34,9 +59,11 @@ func NewCacheStore(store storetypes.KVStore, capacity int) *CacheStore {
 		panic(err)
 	}
 
+	parent := &batchStore{KVStore: store}
 	return &CacheStore{
-		store: cachekv.NewStore(store),
-		cache: cache,
+		parent: parent,
+		store:  cachekv.NewStore(parent),
+		cache:  cache,
 	}
 }
 
@@ -117,6 +144,9 @@ func (c *CacheStore) Delete(key []byte) error {
 // CONTRACT: No writes may happen within a domain while an iterator exists over it.
 // Exceptionally allowed for cachekv.Store, safe to write in the modules.
 func (c *CacheStore) Iterator(start, end []byte) (storetypes.Iterator, error) {
+	c.mtx.RLock()
+	defer c.mtx.RUnlock()
+
 	return c.store.Iterator(start, end), nil
 }
 
@@ -126,9 +156,32 @@ func (c *CacheStore) Iterator(start, end []byte) (storetypes.Iterator, error) {
 // CONTRACT: No writes may happen within a domain while an iterator exists over it.
 // Exceptionally allowed for cachekv.Store, safe to write in the modules.
 func (c *CacheStore) ReverseIterator(start, end []byte) (storetypes.Iterator, error) {
+	c.mtx.RLock()
+	defer c.mtx.RUnlock()
+
 	return c.store.ReverseIterator(start, end), nil
 }
 
+// Write writes all changes to the underlying store; at once if it is a
+// database, such that a crash leaves either all or none of them.
 func (c *CacheStore) Write() {
+	c.mtx.Lock()
+	defer c.mtx.Unlock()
+
+	dbStore, ok := c.parent.KVStore.(dbadapter.Store)
+	if !ok {
+		c.store.Write()
+		return
+	}
+
+	batch := dbStore.DB.NewBatch()
+	defer batch.Close()
+
+	c.parent.batch = batch
+	defer func() { c.parent.batch = nil }()
 	c.store.Write()
+
+	if err := batch.Write(); err != nil {
+		panic(err)
+	}
 }
-- 
2.43.0


From c809331210876ae7a9d69967f8e1e23de92d8ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:10 +0000
Subject: [PATCH 41/44] fix: let the whole state be exported

---
 app/modules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/modules.go b/app/modules.go
index 1f21ae2..3760ba6 100644
--- a/app/modules.go
+++ b/app/modules.go
@@ -188,7 +188,7 @@ can do so safely.
 func orderInitBlockers() []string {
 	return []string{
 		capabilitytypes.ModuleName, authtypes.ModuleName, evmtypes.ModuleName, banktypes.ModuleName,
-		opchildtypes.ModuleName, genutiltypes.ModuleName, authz.ModuleName, group.ModuleName, crisistypes.ModuleName,
+		opchildtypes.ModuleName, authz.ModuleName, group.ModuleName, crisistypes.ModuleName,
 		upgradetypes.ModuleName, feegrant.ModuleName, consensusparamtypes.ModuleName, ibcexported.ModuleName,
 		ibctransfertypes.ModuleName, ibcnfttransfertypes.ModuleName, icatypes.ModuleName, icaauthtypes.ModuleName,
 		ibcfeetypes.ModuleName, auctiontypes.ModuleName, oracletypes.ModuleName, marketmaptypes.ModuleName,
-- 
2.43.0


From cf1e4c6a7b3d2f90d2d52db1dfb0f56166df7f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:10 +0000
Subject: [PATCH 42/44] fix: import exported balances without minting them
 again

---
 x/bank/keeper/genesis.go | 51 ++++++++++++++++++++++++++++++++++------
 x/bank/keeper/send.go    | 27 +++++++++++++++++++--
 2 files changed, 69 insertions(+), 9 deletions(-)

diff --git a/x/bank/keeper/genesis.go b/x/bank/keeper/genesis.go
index 46694df..46623c3 100644
--- a/x/bank/keeper/genesis.go
+++ b/x/bank/keeper/genesis.go
@@ -7,6 +7,8 @@ import (
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	"github.com/cosmos/cosmos-sdk/types/query"
 	"github.com/cosmos/cosmos-sdk/x/bank/types"
+
+	evmtypes "github.com/initia-labs/minievm/x/evm/types"
 )
 
 // InitGenesis initializes the bank module's state from a given genesis state.
@@ -20,7 +22,7 @@ func (k BaseKeeper) InitGenesis(ctx context.Context, genState *types.GenesisStat
 	}
 
 	ac := k.ak.AddressCodec()
-	totalSupply := sdk.Coins{}
+	denoms := genState.Supply.Denoms()
 	genState.Balances = types.SanitizeGenesisBalances(genState.Balances)
 	for _, balance := range genState.Balances {
 		addr, err := ac.StringToBytes(balance.GetAddress())
@@ -32,11 +34,25 @@ func (k BaseKeeper) InitGenesis(ctx context.Context, genState *types.GenesisStat
 			panic(fmt.Errorf("error on setting balances %w", err))
 		}
 
-		totalSupply = totalSupply.Add(balance.Coins...)
+		denoms = append(denoms, balance.Coins.Denoms()...)
 	}
 
-	if !genState.Supply.Empty() && !genState.Supply.Equal(totalSupply) {
-		panic(fmt.Errorf("genesis supply is incorrect, expected %v, got %v", genState.Supply, totalSupply))
+	if !genState.Supply.Empty() {
+		for _, denom := range denoms {
+			// the supply of a user deployed token is up to its contract
+			if evmtypes.IsERC20Denom(denom) {
+				continue
+			}
+
+			supply, err := k.ek.GetSupply(ctx, denom)
+			if err != nil {
+				panic(err)
+			}
+
+			if expected := genState.Supply.AmountOf(denom); !expected.Equal(supply) {
+				panic(fmt.Errorf("genesis supply of %s is incorrect, expected %v, got %v", denom, expected, supply))
+			}
+		}
 	}
 
 	for _, meta := range genState.DenomMetadata {
@@ -44,18 +60,39 @@ func (k BaseKeeper) InitGenesis(ctx context.Context, genState *types.GenesisStat
 	}
 }
 
-// ExportGenesis returns the bank module's genesis state.
+// ExportGenesis returns the bank module's genesis state. The user deployed tokens
+// are left out; their balances and supplies are part of the EVM state.
 func (k BaseKeeper) ExportGenesis(ctx context.Context) *types.GenesisState {
 	totalSupply, _, err := k.GetPaginatedTotalSupply(ctx, &query.PageRequest{Limit: query.PaginationMaxLimit})
 	if err != nil {
 		panic(fmt.Errorf("unable to fetch total supply %v", err))
 	}
 
+	balances := []types.Balance{}
+	for _, balance := range k.GetAccountsBalances(ctx) {
+		balance.Coins = nativeCoins(balance.Coins)
+		if !balance.Coins.Empty() {
+			balances = append(balances, balance)
+		}
+	}
+
 	return types.NewGenesisState(
 		k.GetParams(ctx),
-		k.GetAccountsBalances(ctx),
-		totalSupply,
+		balances,
+		nativeCoins(totalSupply),
 		k.GetAllDenomMetaData(ctx),
 		k.GetAllSendEnabledEntries(ctx),
 	)
 }
+
+// nativeCoins returns the positive coins which are not of user deployed tokens.
+func nativeCoins(coins sdk.Coins) sdk.Coins {
+	natives := sdk.Coins{}
+	for _, coin := range coins {
+		if coin.IsPositive() && !evmtypes.IsERC20Denom(coin.Denom) {
+			natives = append(natives, coin)
+		}
+	}
+
+	return natives.Sort()
+}
diff --git a/x/bank/keeper/send.go b/x/bank/keeper/send.go
index edb8944..fa4b7e5 100644
--- a/x/bank/keeper/send.go
+++ b/x/bank/keeper/send.go
@@ -163,9 +163,32 @@ func (k EVMSendKeeper) SendCoins(ctx context.Context, fromAddr sdk.AccAddress, t
 }
 
 // initBalances sets the balance (multiple coins) for an account by address.
-// An error is returned upon failure.
+// The EVM state of an exported genesis carries the balances already, so only
+// the missing coins are minted. An error is returned upon failure.
 func (k EVMSendKeeper) initBalances(ctx context.Context, addr sdk.AccAddress, balances sdk.Coins) error {
-	return k.ek.MintCoins(ctx, addr, balances)
+	missing := sdk.Coins{}
+	for _, coin := range balances {
+		// user deployed tokens cannot be minted; their balances are EVM state
+		if evmtypes.IsERC20Denom(coin.Denom) {
+			continue
+		}
+
+		balance, err := k.ek.GetBalance(ctx, addr, coin.Denom)
+		if err != nil {
+			return err
+		}
+
+		amount, err := coin.Amount.SafeSub(balance)
+		if err != nil {
+			return err
+		} else if amount.IsNegative() {
+			return types.ErrInputOutputMismatch.Wrapf("%s has %s%s, which is more than %s", addr, balance, coin.Denom, coin)
+		} else if amount.IsPositive() {
+			missing = missing.Add(sdk.NewCoin(coin.Denom, amount))
+		}
+	}
+
+	return k.ek.MintCoins(ctx, addr, missing)
 }
 
 // IsSendEnabledCoins checks the coins provided and returns an ErrSendDisabled
-- 
2.43.0


From 510a2fd4284729b0dcafe009092ce1e0e6343c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:21 +0000
Subject: [PATCH 43/44] fix: run a MsgCall with the access list it states

---
 x/evm/keeper/msg_server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index f16232e..8481fee 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -212,7 +212,9 @@ func (ms *msgServerImpl) Call(ctx context.Context, msg *types.MsgCall) (*types.M
 		return nil, types.ErrInvalidValue.Wrap("value is out of range")
 	}
 
-	retBz, logs, err := ms.EVMCall(ctx, caller, contractAddr, inputBz, value, nil)
+	accessList := types.ConvertCosmosAccessListToEth(msg.AccessList)
+
+	retBz, logs, err := ms.EVMCall(ctx, caller, contractAddr, inputBz, value, accessList)
 	if err != nil {
 		return nil, types.ErrEVMCallFailed.Wrap(err.Error())
 	}
-- 
2.43.0


From 8f889506c569a4089328b5fce914fecf04560eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:04 +0000
Subject: [PATCH 44/44] fix: refuse negative values, they ran as their two's
 complement

---
 x/evm/keeper/msg_server.go   | 34 +++++++++++++++++++++++++---------
 x/evm/keeper/query_server.go |  7 +++----
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/x/evm/keeper/msg_server.go b/x/evm/keeper/msg_server.go
index 8481fee..7edf127 100644
--- a/x/evm/keeper/msg_server.go
+++ b/x/evm/keeper/msg_server.go
@@ -9,6 +9,7 @@ import (
 	"github.com/holiman/uint256"
 
 	"cosmossdk.io/collections"
+	"cosmossdk.io/math"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
 	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
@@ -46,9 +47,9 @@ func (ms *msgServerImpl) Create(ctx context.Context, msg *types.MsgCreate) (*typ
 	if err != nil {
 		return nil, types.ErrInvalidHexString.Wrap(err.Error())
 	}
-	value, overflow := uint256.FromBig(msg.Value.BigInt())
-	if overflow {
-		return nil, types.ErrInvalidValue.Wrap("value is out of range")
+	value, err := convertToUint256(msg.Value)
+	if err != nil {
+		return nil, err
 	}
 	accessList := types.ConvertCosmosAccessListToEth(msg.AccessList)
 	// check the sender is allowed publisher
@@ -97,9 +98,9 @@ func (ms *msgServerImpl) Create2(ctx context.Context, msg *types.MsgCreate2) (*t
 	if err != nil {
 		return nil, types.ErrInvalidHexString.Wrap(err.Error())
 	}
-	value, overflow := uint256.FromBig(msg.Value.BigInt())
-	if overflow {
-		return nil, types.ErrInvalidValue.Wrap("value is out of range")
+	value, err := convertToUint256(msg.Value)
+	if err != nil {
+		return nil, err
 	}
 	accessList := types.ConvertCosmosAccessListToEth(msg.AccessList)
 	// check the sender is allowed publisher
@@ -176,6 +177,21 @@ func (ms *msgServerImpl) increaseNonce(ctx context.Context, caller sdk.AccAddres
 	return nil
 }
 
+// convertToUint256 converts the value of a message. uint256.FromBig takes a negative number
+// for its two's complement, so it has to be refused here.
+func convertToUint256(value math.Int) (*uint256.Int, error) {
+	bigValue := value.BigInt()
+	if bigValue != nil && bigValue.Sign() < 0 {
+		return nil, types.ErrInvalidValue.Wrap("value is negative")
+	}
+
+	res, overflow := uint256.FromBig(bigValue)
+	if overflow {
+		return nil, types.ErrInvalidValue.Wrap("value is out of range")
+	}
+	return res, nil
+}
+
 // Call implements types.MsgServer.
 func (ms *msgServerImpl) Call(ctx context.Context, msg *types.MsgCall) (*types.MsgCallResponse, error) {
 	sender, err := ms.ac.StringToBytes(msg.Sender)
@@ -207,9 +223,9 @@ func (ms *msgServerImpl) Call(ctx context.Context, msg *types.MsgCall) (*types.M
 	if err != nil {
 		return nil, types.ErrInvalidHexString.Wrap(err.Error())
 	}
-	value, overflow := uint256.FromBig(msg.Value.BigInt())
-	if overflow {
-		return nil, types.ErrInvalidValue.Wrap("value is out of range")
+	value, err := convertToUint256(msg.Value)
+	if err != nil {
+		return nil, err
 	}
 
 	accessList := types.ConvertCosmosAccessListToEth(msg.AccessList)
diff --git a/x/evm/keeper/query_server.go b/x/evm/keeper/query_server.go
index 165b268..c745b5e 100644
--- a/x/evm/keeper/query_server.go
+++ b/x/evm/keeper/query_server.go
@@ -7,7 +7,6 @@ import (
 
 	errorsmod "cosmossdk.io/errors"
 	sdk "github.com/cosmos/cosmos-sdk/types"
-	"github.com/holiman/uint256"
 
 	"github.com/ethereum/go-ethereum/common"
 	"github.com/ethereum/go-ethereum/common/hexutil"
@@ -58,9 +57,9 @@ func (qs *queryServerImpl) Call(ctx context.Context, req *types.QueryCallRequest
 		return nil, err
 	}
 
-	value, overflow := uint256.FromBig(req.Value.BigInt())
-	if overflow {
-		return nil, types.ErrInvalidValue.Wrap("value is out of range")
+	value, err := convertToUint256(req.Value)
+	if err != nil {
+		return nil, err
 	}
 
 	var tracer *tracing.Hooks
-- 
2.43.0

