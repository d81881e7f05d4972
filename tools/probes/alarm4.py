exec(open('/verif/tools/probes/alarm3.py').read().split('alarm(')[0])
alarm("closer","C20",[(R,"codec.closer != nil","codec.closer == nil")])
alarm("packetdec","C05 C09 C19",[(M,"	entityPacket, ok := interface{}(entity).(EntityPacket)\n	if !ok {","	entityPacket, ok := interface{}(entity).(EntityPacket)\n	if !ok || true {")])
