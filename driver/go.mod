module verifdriver

go 1.21

require github.com/qiniu/text v0.0.0

replace github.com/qiniu/text => /repo
