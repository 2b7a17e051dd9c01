module verif

go 1.23.0

require robpike.io/ivy v0.0.0

replace robpike.io/ivy => /repo
