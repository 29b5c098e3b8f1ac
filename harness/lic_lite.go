//go:build no_license

package main

const licensesBuiltIn = false

func bestLicenses(name string, data []byte) (map[string]bool, float32) { return nil, 0 }
