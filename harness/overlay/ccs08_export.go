package ccs08

// Only identifiers that the repository's own in-package tests use appear here.

type ZzRange = ccs08
