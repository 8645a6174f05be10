F='pkg/flake/flake.go'
EDITS={
'e03:before':[(F,'st.StartTime.After(now)','now.Before(st.StartTime)')],
'e03:sub':[(F,'st.StartTime.After(now)','st.StartTime.Sub(now) > 0')],
'e03:mid':[(F,'''	if st.MachineID == nil {
		sf.machineID, err = defaultMachineID()
	} else {
		sf.machineID, err = st.MachineID()
	}
''','''	mid := st.MachineID
	if mid == nil {
		mid = defaultMachineID
	}
	sf.machineID, err = mid()
''')],
'e03:check':[(F,'''	if st.CheckMachineID != nil && !st.CheckMachineID(sf.machineID) {
		logger.Panicf("CheckMachineID ID failed: %d", sf.machineID)
	}
''','''	if check := st.CheckMachineID; check != nil {
		if valid := check(sf.machineID); !valid {
			logger.Panicf("CheckMachineID ID failed: %d", sf.machineID)
		}
	}
''')],
'e03:or':[(F,'(uint16(ip[last-2])<<8 + uint16(ip[last-1])) & uint16(MaskMachineID)','uint16(ip[last-2])<<8 | uint16(ip[last-1])')],
'e03:raw':[(F,'ip := ipnet.IP.To16()','ip := ipnet.IP')],
'e03:index':[(F,'''		last := len(ip)
''','''		last := net.IPv6len
''')],
'e03:helper':[(F,'''		ip := ipnet.IP.To16()
		last := len(ip)
		id := (uint16(ip[last-2])<<8 + uint16(ip[last-1])) & uint16(MaskMachineID)
		//logger.Noticef("machine_id=%d, ip=%v, ip_len=%d", id, ip.String(), last)
		return id, nil
''','''		return lastBytes(ipnet.IP.To16()), nil
'''),(F,'// Decompose returns','''func lastBytes(ip net.IP) uint16 {
	n := len(ip)
	return (uint16(ip[n-2])<<8 + uint16(ip[n-1])) & uint16(MaskMachineID)
}

// Decompose returns''')],
'e03:nested':[(F,'''		if !ok || ipnet.IP.IsLoopback() {
			continue
		}
		ip := ipnet.IP.To16()
		last := len(ip)
		id := (uint16(ip[last-2])<<8 + uint16(ip[last-1])) & uint16(MaskMachineID)
		//logger.Noticef("machine_id=%d, ip=%v, ip_len=%d", id, ip.String(), last)
		return id, nil
''','''		if ok && !ipnet.IP.IsLoopback() {
			ip := ipnet.IP.To16()
			last := len(ip)
			id := (uint16(ip[last-2])<<8 + uint16(ip[last-1])) & uint16(MaskMachineID)
			return id, nil
		}
''')],
'e03:endian':[(F,'(uint16(ip[last-2])<<8 + uint16(ip[last-1])) & uint16(MaskMachineID)','binary.BigEndian.Uint16(ip[last-2:])'),(F,'import (','import (\n\t"encoding/binary"')],
'e03:settings':[(F,'''	var err error
	if st.MachineID == nil {
		sf.machineID, err = defaultMachineID()
	} else {
		sf.machineID, err = st.MachineID()
	}
	if err != nil {
		logger.Panicf("machine ID failed: %+v", err)
	}
''','''	sf.machineID = machineOf(st)
'''),(F,'// NextID generates a next unique ID.\n// After','''func machineOf(st Settings) uint16 {
	id, err := st.machine()
	if err != nil {
		logger.Panicf("machine ID failed: %+v", err)
	}
	return id
}

func (st Settings) machine() (uint16, error) {
	if st.MachineID != nil {
		return st.MachineID()
	}
	return defaultMachineID()
}

// NextID generates a next unique ID.
// After''')],
}
