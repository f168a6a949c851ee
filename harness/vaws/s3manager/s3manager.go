// Package s3manager stands in for the limits of uploads, scaled down.
package s3manager

const MaxUploadParts = 6

const MinUploadPartSize int64 = 2

const DefaultUploadPartSize = MinUploadPartSize

const DefaultUploadConcurrency = 2
