package bulletproofs

import (
	"math/big"

	"github.com/ing-bank/zkrp/crypto/p256"
)

// Only identifiers that the repository's own in-package tests use appear here.

func ZzPowerOf(x *big.Int, n int64) []*big.Int { return powerOf(x, n) }

func ZzSetupIP(H *p256.P256, g, h []*p256.P256, c *big.Int, n int64) (InnerProductParams, error) {
	return setupInnerProduct(H, g, h, c, n)
}
func ZzProveIP(a, b []*big.Int, P *p256.P256, params InnerProductParams) (InnerProductProof, error) {
	return proveInnerProduct(a, b, P, params)
}
func ZzCommitIP(g, h []*p256.P256, a, b []*big.Int) *p256.P256 { return commitInnerProduct(g, h, a, b) }
