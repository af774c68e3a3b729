package guest

import (
	"context"

	"github.com/nanobus/iota/go/internal/zzpeer"
)

func zzScenario_C30_own() {
	zzpeer.Own(zzNew(), func(context.Context) bool { return true })
}
