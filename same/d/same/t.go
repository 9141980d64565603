package same

type T struct {
	A uint32
	B *uint8 `eosio:"optional"`
	C []byte `eosio:"extension"`
}
type U uint64
