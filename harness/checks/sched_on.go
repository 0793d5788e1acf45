//go:build sched

package checks

import "github.com/cespare/goclj/verifsched"

func init() { schedRun, withOrders = verifsched.Run, verifsched.WithOrders }
