// Package checks holds one driver per property. Drivers use only the exported interface of the library.
package checks

import (
	"time"

	"verif/mcx"
)

type Check struct {
	ID          string
	Level       string
	Rule        string // how cases are made and what makes one non-trivial
	Bounds      string
	Assumptions []string
	NoLimit     bool
	Hang        time.Duration // how long one case may take, if not the default
	Run         func(r *mcx.Run)
}

var All []*Check

func register(c *Check) {
	if c.Assumptions == nil {
		c.Assumptions = []string{}
	}
	All = append(All, c)
}

func Find(id string) *Check {
	for _, c := range All {
		if c.ID == id {
			return c
		}
	}
	return nil
}
