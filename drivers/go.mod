module drivers

go 1.18

require github.com/urban-wombat/gotables v0.0.0

require gopkg.in/yaml.v3 v3.0.1 // indirect

replace github.com/urban-wombat/gotables => /repo
