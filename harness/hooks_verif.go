//go:build verif

package main

import "golang.org/x/crypto/bcrypt"

// clampBcrypt makes hashing cheap: the verification build replaces the bcrypt
// package by a copy of itself with a hook.
func clampBcrypt(cost int) { bcrypt.VerifClamp = cost }

func onBcrypt(f func(kind string, cost int)) { bcrypt.VerifHook = f }
