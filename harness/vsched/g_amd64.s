#include "textflag.h"

// func getg() uintptr: the current goroutine's descriptor address, used only as
// an identity key while that goroutine is alive.
TEXT ·getg(SB), NOSPLIT, $0-8
	MOVQ (TLS), AX
	MOVQ AX, ret+0(FP)
	RET
