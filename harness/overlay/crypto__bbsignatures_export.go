package bbsignatures

import (
	"math/big"

	"github.com/ing-bank/zkrp/crypto/bn256"
)

// Only identifiers that the repository's own in-package tests use appear here.

func ZzVerify(signature *bn256.G2, m *big.Int, pubk *bn256.G1) (bool, error) {
	return verify(signature, m, pubk)
}
