package main

import "context"

var nil2ctx = context.Background()
