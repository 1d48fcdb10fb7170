package main

import "verifmc/model"

const strictEnum = model.StrictEnum

var officialMeta = model.OfficialMeta
