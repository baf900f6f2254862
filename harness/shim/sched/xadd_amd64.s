#include "textflag.h"

// func xadd(p *uint64, n uint64) uint64
TEXT ·xadd(SB), NOSPLIT, $0-24
	MOVQ p+0(FP), BX
	MOVQ n+8(FP), AX
	LOCK
	XADDQ AX, 0(BX)
	MOVQ AX, ret+16(FP)
	RET
