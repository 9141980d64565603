package checks

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/greymass/go-eosio/pkg/codegen"
)

// GenEmit runs the generator on every value and prints the list of results.
func GenEmit(vs []interface{}) {
	var out []string
	for _, v := range vs {
		out = append(out, emit(v))
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func emit(v interface{}) (code string) {
	defer func() {
		if e := recover(); e != nil {
			code = fmt.Sprintf("PANIC: %v", e)
		}
	}()
	return codegen.GenUnmarshalFn(v)
}
