P="protocol/t808_0x8606.go"
alarm("8606-speedflag","C01 C02",[(P,"		point.Attribute.SetSpeedLimit(point.MaxSpeed != nil && point.OverSpeedDuration != nil)\n","")])
alarm("8606-timehalf","C01 C02",[(P,"SetTimeLimit(point.TimeTooLong != nil && point.TimeTooShort != nil)","SetTimeLimit(point.Attribute.HasTimeLimit() || point.TimeTooShort != nil)")])
