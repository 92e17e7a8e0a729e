// Package shutdown stands in for the real one: instead of listening on a port
// Serve hands the router to the driver, which sends it requests.
package shutdown

import "github.com/gin-gonic/gin"

// Hook is set by the driver.
var Hook func(router *gin.Engine) error

type Graceful struct{}

func (g *Graceful) Initialize() {}

func (g *Graceful) Serve(router *gin.Engine, port uint) error { return Hook(router) }

func (g *Graceful) Close() {}
