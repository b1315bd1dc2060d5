package main

import "github.com/tg123/phabrik/zzverif/vrand"

// setRand decides the random bytes the code under test draws; nil restores real randomness.
func setRand(f func([]byte)) { vrand.Feed = f }
