// Package ec2metadata stands in for the metadata of the machine.
package ec2metadata

import (
	"errors"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/client"
)

// Place is the region of the machine; none if it is empty.
var Place string

type EC2Metadata struct{}

func New(p client.ConfigProvider, cfgs ...*aws.Config) *EC2Metadata { return &EC2Metadata{} }

func (c *EC2Metadata) Region() (string, error) {
	if Place == "" {
		return "", errors.New("not a machine of the cloud")
	}
	return Place, nil
}

func (c *EC2Metadata) Available() bool { return Place != "" }
