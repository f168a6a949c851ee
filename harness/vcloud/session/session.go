// Package session stands in for sessions: the shared configuration of the
// machine has the region the harness sets.
package session

import (
	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/client"
)

// Region is set by the harness.
var Region string

type Session struct{ Config *aws.Config }

type SharedConfigState int

const (
	SharedConfigStateFromEnv SharedConfigState = iota
	SharedConfigDisable
	SharedConfigEnable
)

type Options struct {
	Config            aws.Config
	Profile           string
	SharedConfigState SharedConfigState
	SharedConfigFiles []string
}

func New(cfgs ...*aws.Config) *Session { return &Session{Config: aws.NewConfig()} }

func NewSession(cfgs ...*aws.Config) (*Session, error) { return New(cfgs...), nil }

func NewSessionWithOptions(opts Options) (*Session, error) { return New(), nil }

func Must(s *Session, err error) *Session {
	if err != nil {
		panic(err)
	}
	return s
}

func (s *Session) ClientConfig(service string, cfgs ...*aws.Config) client.Config {
	return client.Config{Config: s.Config, SigningRegion: Region}
}
