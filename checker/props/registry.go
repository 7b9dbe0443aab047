package props

var registry = map[string]func(*Ctx){}

func register(id string, f func(*Ctx)) {
	if g := registry[id]; g != nil {
		h := f
		f = func(c *Ctx) { g(c); h(c) }
	}
	registry[id] = f
}

// Decide schedules and runs the obligations of a property.
func Decide(c *Ctx) bool {
	f := registry[c.ID]
	if f == nil {
		return false
	}
	f(c)
	c.Wait()
	return true
}
