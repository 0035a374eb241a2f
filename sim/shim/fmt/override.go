// Package fmt sends standard output to the simulator.
package fmt

import (
	orig "fmt"

	"github.com/andrewkroh/go-sawmill/internal/verifsim/shim/os"
)

func Print(a ...interface{}) (int, error)   { return os.Stdout.WriteString(orig.Sprint(a...)) }
func Println(a ...interface{}) (int, error) { return os.Stdout.WriteString(orig.Sprintln(a...)) }
func Printf(f string, a ...interface{}) (int, error) {
	return os.Stdout.WriteString(orig.Sprintf(f, a...))
}
