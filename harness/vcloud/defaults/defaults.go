// Package defaults stands in for the credentials of the machine.
package defaults

import (
	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/credentials"
	"github.com/aws/aws-sdk-go/aws/request"
)

// Machine is the key of the machine.
const Machine = "MACHINE"

func Config() *aws.Config { return aws.NewConfig() }

func Handlers() request.Handlers { return request.Handlers{} }

func CredChain(cfg *aws.Config, handlers request.Handlers) *credentials.Credentials {
	return credentials.NewStaticCredentials(Machine, "s", "")
}
