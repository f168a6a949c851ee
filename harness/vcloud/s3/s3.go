// Package s3 stands in for the client of the object store: the harness gives
// the service and sees the configuration.
package s3

import (
	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/client"
	"github.com/aws/aws-sdk-go/service/s3/s3iface"
)

// Service is set by the harness.
var Service func(cfg *aws.Config) s3iface.S3API

func New(p client.ConfigProvider, cfgs ...*aws.Config) s3iface.S3API {
	cfg := aws.NewConfig()
	for _, c := range cfgs {
		if c.Credentials != nil {
			cfg.Credentials = c.Credentials
		}
		if c.Region != nil {
			cfg.Region = c.Region
		}
		if c.Endpoint != nil {
			cfg.Endpoint = c.Endpoint
		}
		if c.S3ForcePathStyle != nil {
			cfg.S3ForcePathStyle = c.S3ForcePathStyle
		}
	}
	return Service(cfg)
}

func NormalizeBucketLocation(loc string) string {
	switch loc {
	case "":
		return "us-east-1"
	case "EU":
		return "eu-west-1"
	}
	return loc
}
