package main

import (
	"io"

	"github.com/sirupsen/logrus"

	"github.com/DaoCloud/ckube/log"
)

func quietLogs() {
	logrus.SetOutput(io.Discard)
	log.AccessLog.SetOutput(io.Discard)
}
