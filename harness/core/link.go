package core

import (
	_ "unsafe"

	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/baseapp"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

//go:linkname deliverTx github.com/cosmos/cosmos-sdk/baseapp.(*BaseApp).deliverTx
func deliverTx(app *baseapp.BaseApp, tx []byte) *abci.ExecTxResult

// DeliverRaw runs an encoded transaction on a branch as block execution does, with the result
// the block would record.
func (w *World) DeliverRaw(ctx sdk.Context, tx []byte) *abci.ExecTxResult {
	w.OnCtx(ctx)
	return deliverTx(w.App.BaseApp, tx)
}
