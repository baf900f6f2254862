module polverif

go 1.23

require (
	github.com/IBM/mathlib v0.0.0-20220414125002-6f78dce8f91c
	pol v0.0.0
)

require (
	github.com/consensys/gnark-crypto v0.6.0 // indirect
	github.com/hyperledger/fabric-amcl v0.0.0-20210603140002-2670f91851c8 // indirect
	github.com/mmcloughlin/addchain v0.4.0 // indirect
	github.com/pkg/errors v0.8.1 // indirect
	golang.org/x/crypto v0.0.0-20210322153248-0c34fe9e7dc2 // indirect
	golang.org/x/sys v0.0.0-20220727055044-e65921a090b8 // indirect
)

replace pol => /repo
