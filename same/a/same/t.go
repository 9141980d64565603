// Package same has a type that shares its name with those of its sister packages but not its methods.
package same

type T struct{ A uint32 }
type U uint32
