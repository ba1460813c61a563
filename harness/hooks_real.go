//go:build !verif

package main

func clampBcrypt(cost int)                   {}
func onBcrypt(f func(kind string, cost int)) {}
