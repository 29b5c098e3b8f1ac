//go:build !no_license

package main

import (
	"gopkg.in/src-d/go-license-detector.v2/licensedb"
	"gopkg.in/src-d/go-license-detector.v2/licensedb/filer"
	"sync"
)

type oneFile struct {
	name string
	data []byte
}

func (f *oneFile) ReadFile(string) ([]byte, error)      { return f.data, nil }
func (f *oneFile) ReadDir(string) ([]filer.File, error) { return []filer.File{{Name: f.name}}, nil }
func (f *oneFile) Close()                               {}

var detectMu sync.Mutex

const licensesBuiltIn = true

// bestLicenses asks the detector library itself.
func bestLicenses(name string, data []byte) (names map[string]bool, best float32) {
	detectMu.Lock()
	defer detectMu.Unlock()
	m, err := licensedb.Detect(&oneFile{name, data})
	if err != nil && err != licensedb.ErrNoLicenseFound {
		harnessErr("licensedb: %v", err)
	}
	names = map[string]bool{}
	for _, v := range m {
		if v > best {
			best = v
		}
	}
	for k, v := range m {
		if v == best {
			names[k] = true
		}
	}
	return
}
