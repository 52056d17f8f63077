package scte35

// ---- C24: published names ----

//@ spec (*SegmentationDescriptor).Name
//@ all C24
//@ frame C24 C20
func specSegmentationTypeName(sd *SegmentationDescriptor) string {
	switch sd.SegmentationTypeID {
	case 0x00:
		return "Not Indicated"
	case 0x01:
		return "Content Identification"
	case 0x10:
		return "Program Start"
	case 0x11:
		return "Program End"
	case 0x12:
		return "Program Early Termination"
	case 0x13:
		return "Program Breakaway"
	case 0x14:
		return "Program Resumption"
	case 0x15:
		return "Program Runover Planned"
	case 0x16:
		return "Program Runover Unplanned"
	case 0x17:
		return "Program Overlap Start"
	case 0x18:
		return "Program Blackout Override"
	case 0x19:
		return "Program Start - In Progress"
	case 0x20:
		return "Chapter Start"
	case 0x21:
		return "Chapter End"
	case 0x22:
		return "Break Start"
	case 0x23:
		return "Break End"
	case 0x24:
		return "Opening Credit Start"
	case 0x25:
		return "Opening Credit End"
	case 0x26:
		return "Closing Credit Start"
	case 0x27:
		return "Closing Credit End"
	case 0x30:
		return "Provider Advertisement Start"
	case 0x31:
		return "Provider Advertisement End"
	case 0x32:
		return "Distributor Advertisement Start"
	case 0x33:
		return "Distributor Advertisement End"
	case 0x34:
		return "Provider Placement Opportunity Start"
	case 0x35:
		return "Provider Placement Opportunity End"
	case 0x36:
		return "Distributor Placement Opportunity Start"
	case 0x37:
		return "Distributor Placement Opportunity End"
	case 0x38:
		return "Provider Overlay Placement Opportunity Start"
	case 0x39:
		return "Provider Overlay Placement Opportunity End"
	case 0x3a:
		return "Distributor Overlay Placement Opportunity Start"
	case 0x3b:
		return "Distributor Overlay Placement Opportunity End"
	case 0x3c:
		return "Provider Promo Start"
	case 0x3d:
		return "Provider Promo End"
	case 0x3e:
		return "Distributor Promo Start"
	case 0x3f:
		return "Distributor Promo End"
	case 0x40:
		return "Unscheduled Event Start"
	case 0x41:
		return "Unscheduled Event End"
	case 0x42:
		return "Alternate Content Opportunity Start"
	case 0x43:
		return "Alternate Content Opportunity End"
	case 0x44:
		return "Provider Ad Block Start"
	case 0x45:
		return "Provider Ad Block End"
	case 0x46:
		return "Distributor Ad Block Start"
	case 0x47:
		return "Distributor Ad Block End"
	case 0x50:
		return "Network Start"
	case 0x51:
		return "Network End"
	}
	return "Unknown"
}

//@ spec (*SegmentationUPID).Name
//@ all C24
//@ frame C24 C20
func specUPIDTypeName(u *SegmentationUPID) string {
	switch u.Type {
	case 0:
		return "Not Used"
	case 1:
		return "User Defined"
	case 2:
		return "ISCI"
	case 3:
		return "Ad-ID"
	case 4:
		return "UMID"
	case 5:
		return "ISAN (Deprecated)"
	case 6:
		return "ISAN"
	case 7:
		return "TID"
	case 8:
		return "TI"
	case 9:
		return "ADI"
	case 10:
		return "EIDR: " + specEIDRTypeName(u)
	case 11:
		return "ATSC Content Identifier"
	case 12:
		return "MPU()"
	case 13:
		return "MID()"
	case 14:
		return "ADS Information"
	case 15:
		return "URI"
	case 16:
		return "UUID"
	case 17:
		return "SCR"
	}
	return "Unknown"
}

//@ spec (*SpliceInfoSection).SAPTypeName
//@ all C24
//@ frame C24 C20
func specSAPTypeName(sis *SpliceInfoSection) string {
	switch sis.SAPType {
	case 0:
		return "Type 1"
	case 1:
		return "Type 2"
	case 2:
		return "Type 3"
	}
	return "Not Specified"
}

//@ spec (*DeliveryRestrictions).deviceRestrictionsName
//@ all C24
//@ frame C24 C20
func specDeviceRestrictionsName(dr *DeliveryRestrictions) string {
	switch dr.DeviceRestrictions {
	case 0:
		return "Restrict Group 0"
	case 1:
		return "Restrict Group 1"
	case 2:
		return "Restrict Group 2"
	case 3:
		return "None"
	}
	return "Unknown"
}

//@ spec (*EncryptedPacket).encryptionAlgorithmName
//@ all C24
//@ frame C24 C20
func specEncryptionAlgorithmName(p *EncryptedPacket) string {
	switch p.EncryptionAlgorithm {
	case 0:
		return "No encryption"
	case 1:
		return "DES – ECB mode"
	case 2:
		return "DES – CBC mode"
	case 3:
		return "Triple DES EDE3 – ECB mode"
	}
	return "User private"
}
