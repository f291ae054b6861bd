//go:build verifyield

package props

import rfc5322 "github.com/ProtonMail/go-rfc5322"

// Built with the overlay of ../yield, the parser calls yield before every statement.
func init() { rfc5322.VerifYield = yield }
