package h

import (
	_ "verifharness/vksync" // the engine needs it for code that uses sync.Map, sync.Pool, sync.Cond
	_ "verifharness/vktime" // the engine needs it for code that uses timers
)
