// Package xml stands in for decoding: a harness decodes the answers it makes.
package xml

import "errors"

type Name struct{ Space, Local string }

// Decode is set by the harness.
var Decode func(data []byte, v interface{}) error

func Unmarshal(data []byte, v interface{}) error {
	if Decode == nil {
		return errors.New("xml: not expected")
	}
	return Decode(data, v)
}
