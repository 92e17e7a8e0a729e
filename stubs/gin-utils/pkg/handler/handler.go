// Package handler stands in for the real one, whose Exit ends the process.
package handler

import "github.com/gin-gonic/gin"

func Exit(c *gin.Context) { c.String(200, "exit") }
