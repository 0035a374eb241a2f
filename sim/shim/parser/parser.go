// Package parser reads Go source files through the simulator.
package parser

import (
	"go/ast"
	orig "go/parser"
	"go/token"

	"github.com/andrewkroh/go-sawmill/internal/verifsim/shim/os"
)

func ParseFile(fset *token.FileSet, filename string, src interface{}, mode orig.Mode) (*ast.File, error) {
	if src == nil {
		data, err := os.ReadFile(filename)
		if err != nil {
			return nil, err
		}
		src = data
	}
	return orig.ParseFile(fset, filename, src, mode)
}
