// Package scen holds the simulated scenarios and the property registry.
package scen

import (
	"sort"

	"verif.local/sim/vsim"
)

// Scenario is one kind of simulated run.
type Scenario struct {
	Name string
	// Doc says what is generated and what decides the verdict.
	Doc string
	Run func(s *vsim.Sim)
}

// Part weighs a scenario within a check.
type Part struct {
	Scenario *Scenario
	Weight   int
}

// Check decides one property.
type Check struct {
	Property string
	Parts    []Part
	// Runs per tier; the time cap only guards against a slow machine.
	Quick, Thorough int
	Real, Stub      []string
	Assumptions     []string
}

var checks = map[string]*Check{}

// register adds a check.
func register(c *Check) { checks[c.Property] = c }

// Lookup finds the check of a property.
func Lookup(id string) *Check { return checks[id] }

// All lists the registered properties.
func All() []string {
	var out []string
	for k := range checks {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Pick chooses the scenario of run number i.
func (c *Check) Pick(i uint64) *Scenario {
	tot := 0
	for _, p := range c.Parts {
		tot += p.Weight
	}
	k := int(i % uint64(tot))
	for _, p := range c.Parts {
		if k < p.Weight {
			return p.Scenario
		}
		k -= p.Weight
	}
	return c.Parts[0].Scenario
}

// ByName finds a scenario of the check.
func (c *Check) ByName(n string) *Scenario {
	for _, p := range c.Parts {
		if p.Scenario.Name == n {
			return p.Scenario
		}
	}
	return nil
}

// probes lists, per property, the rare conditions its runs are expected to reach.
var probes = map[string][]string{}

// ProbesOf returns the expected probes of a property.
func ProbesOf(id string) []string { return probes[id] }
