module vrt

go 1.24

require (
	github.com/google/uuid v1.3.0
	github.com/mailru/easyjson v0.7.7
	github.com/valyala/fastjson v1.6.4
	pgregory.net/rapid v1.3.0
)

require github.com/josharian/intern v1.0.0 // indirect

replace github.com/valyala/fastjson => github.com/iv-menshenin/fastjson v0.0.0-20241112032938-e81832e503d5
