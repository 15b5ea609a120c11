package gens

import (
	"encoding/json"
	"strconv"
)

// Bytes is a byte string that survives JSON.
type Bytes string

// MarshalJSON quotes the bytes.
func (q Bytes) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(q))) }

// UnmarshalJSON unquotes them.
func (q *Bytes) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	*q = Bytes(u)
	return err
}
