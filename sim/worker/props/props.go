// Package props contains one simulation per property.
package props

import "verif/sim/worker/core"

var All = map[string]*core.Prop{}

func register(p *core.Prop) { All[p.ID] = p }
