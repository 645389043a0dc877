//go:build !verifrt

package rt

const Enabled = false

func Exec(pre []byte, seed uint64, fs ...func()) *Trace {
	panic("built without the controlled scheduler")
}

func SetSeed(seed uint64) {}

func Asked() []string { return nil }
