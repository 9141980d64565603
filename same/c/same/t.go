package same

import "github.com/greymass/go-eosio/pkg/abi"

type T struct{ A uint32 }

func (t *T) MarshalABI(e *abi.Encoder) error { return e.WriteUint8(uint8(t.A)) }
func (t *T) UnmarshalABI(d *abi.Decoder) error {
	v, err := d.ReadUint8()
	t.A = uint32(v)
	return err
}

type U uint32

func (u *U) MarshalABI(e *abi.Encoder) error { return e.WriteUint8(uint8(*u)) }
func (u *U) UnmarshalABI(d *abi.Decoder) error {
	v, err := d.ReadUint8()
	*u = U(v)
	return err
}
