package main

// The vocabulary of the protocols, from the NMDC and ADC specifications.

var vocabConsts = map[string]string{
	"adc.AwayTypeExtended":     `2`,
	"adc.AwayTypeNone":         `0`,
	"adc.AwayTypeNormal":       `1`,
	"adc.CategoryFileList":     `8`,
	"adc.CategoryHub":          `1`,
	"adc.CategorySearch":       `4`,
	"adc.CategoryUser":         `2`,
	"adc.ExtArch":              `2`,
	"adc.ExtAudio":             `1`,
	"adc.ExtDoc":               `4`,
	"adc.ExtExe":               `8`,
	"adc.ExtImage":             `16`,
	"adc.ExtNone":              `0`,
	"adc.ExtVideo":             `32`,
	"adc.Fatal":                `2`,
	"adc.FileListBZIP":         `"files.xml.bz2"`,
	"adc.FileTypeAny":          `0`,
	"adc.FileTypeDir":          `2`,
	"adc.FileTypeFile":         `1`,
	"adc.ProtoADC":             `"ADC/1.0"`,
	"adc.ProtoADCS":            `"ADCS/0.10"`,
	"adc.Recoverable":          `1`,
	"adc.SchemaADC":            `"adc"`,
	"adc.SchemaADCS":           `"adcs"`,
	"adc.Success":              `0`,
	"adc.UserTypeBot":          `1`,
	"adc.UserTypeHidden":       `64`,
	"adc.UserTypeHub":          `32`,
	"adc.UserTypeHubOwner":     `16`,
	"adc.UserTypeNone":         `0`,
	"adc.UserTypeOperator":     `4`,
	"adc.UserTypeRegistered":   `2`,
	"adc.UserTypeSuperUser":    `8`,
	"nmdc.ConnSpeedModem":      `"1"`,
	"nmdc.ConnSpeedServer":     `"1000"`,
	"nmdc.ContextFileList":     `8`,
	"nmdc.ContextHub":          `1`,
	"nmdc.ContextSearch":       `4`,
	"nmdc.ContextUser":         `2`,
	"nmdc.DataTypeAny":         `1`,
	"nmdc.DataTypeAudio":       `2`,
	"nmdc.DataTypeBook":        `12`,
	"nmdc.DataTypeComics":      `11`,
	"nmdc.DataTypeCompressed":  `3`,
	"nmdc.DataTypeDiskImage":   `10`,
	"nmdc.DataTypeDocument":    `4`,
	"nmdc.DataTypeExecutable":  `5`,
	"nmdc.DataTypeFolders":     `8`,
	"nmdc.DataTypeMagnet":      `13`,
	"nmdc.DataTypePicture":     `6`,
	"nmdc.DataTypeTTH":         `9`,
	"nmdc.DataTypeVideo":       `7`,
	"nmdc.DefaultKeyMagic":     `5`,
	"nmdc.DefaultPort":         `411`,
	"nmdc.FlagIPv4":            `64`,
	"nmdc.FlagIPv6":            `128`,
	"nmdc.FlagStatusAway":      `2`,
	"nmdc.FlagStatusFireball":  `8`,
	"nmdc.FlagStatusNormal":    `1`,
	"nmdc.FlagStatusServer":    `4`,
	"nmdc.FlagTLS":             `48`,
	"nmdc.FlagTLSDownload":     `16`,
	"nmdc.FlagTLSUpload":       `32`,
	"nmdc.SchemeNMDC":          `"dchub"`,
	"nmdc.SchemeNMDCS":         `"nmdcs"`,
	"nmdc.TypeErase":           `255`,
	"nmdc.TypeRaw":             `1`,
	"nmdc.TypeRawNickLimited":  `2`,
	"nmdc.TypeSeparator":       `0`,
	"nmdc.UserModeActive":      `65`,
	"nmdc.UserModePassive":     `80`,
	"nmdc.UserModeSOCKS5":      `53`,
	"nmdc.UserModeUnknown":     `0`,
	"tiger.Size":               `24`,
	"tiger.BlockSize":          `64`,
	"tiger.Base32Size":         `39`,
	"nmdc.ExtACTM":             `"ACTM"`,
	"nmdc.ExtADCGet":           `"ADCGet"`,
	"nmdc.ExtBZList":           `"BZList"`,
	"nmdc.ExtBanMsg":           `"BanMsg"`,
	"nmdc.ExtBotINFO":          `"BotINFO"`,
	"nmdc.ExtBotList":          `"BotList"`,
	"nmdc.ExtClientID":         `"ClientID"`,
	"nmdc.ExtClientNick":       `"ClientNick"`,
	"nmdc.ExtDHT0":             `"DHT0"`,
	"nmdc.ExtExtJSON2":         `"ExtJSON2"`,
	"nmdc.ExtFailOver":         `"FailOver"`,
	"nmdc.ExtFeaturedNetworks": `"FeaturedNetworks"`,
	"nmdc.ExtGetZBlock":        `"GetZBlock"`,
	"nmdc.ExtHubINFO":          `"HubINFO"`,
	"nmdc.ExtHubTopic":         `"HubTopic"`,
	"nmdc.ExtIN":               `"IN"`,
	"nmdc.ExtLocale":           `"Locale"`,
	"nmdc.ExtMCTo":             `"MCTo"`,
	"nmdc.ExtMinislots":        `"Minislots"`,
	"nmdc.ExtNickChange":       `"NickChange"`,
	"nmdc.ExtNickRule":         `"NickRule"`,
	"nmdc.ExtNoGetINFO":        `"NoGetINFO"`,
	"nmdc.ExtNoHello":          `"NoHello"`,
	"nmdc.ExtOpPlus":           `"OpPlus"`,
	"nmdc.ExtQuickList":        `"QuickList"`,
	"nmdc.ExtSaltPass":         `"SaltPass"`,
	"nmdc.ExtSearchRule":       `"SearchRule"`,
	"nmdc.ExtTLS":              `"TLS"`,
	"nmdc.ExtTTHF":             `"TTHF"`,
	"nmdc.ExtTTHL":             `"TTHL"`,
	"nmdc.ExtTTHS":             `"TTHS"`,
	"nmdc.ExtTTHSearch":        `"TTHSearch"`,
	"nmdc.ExtUserCommand":      `"UserCommand"`,
	"nmdc.ExtUserIP2":          `"UserIP2"`,
	"nmdc.ExtXmlBZList":        `"XmlBZList"`,
	"nmdc.ExtZLIG":             `"ZLIG"`,
	"nmdc.ExtZPipe0":           `"ZPipe0"`,
}

var vocabFeatures = map[string]string{
	"adc.FeaADC0": "ADC0",
	"adc.FeaADCS": "ADCS",
	"adc.FeaASCH": "ASCH",
	"adc.FeaBAS0": "BAS0",
	"adc.FeaBASE": "BASE",
	"adc.FeaBLO0": "BLO0",
	"adc.FeaBZIP": "BZIP",
	"adc.FeaCCPM": "CCPM",
	"adc.FeaNAT0": "NAT0",
	"adc.FeaONID": "ONID",
	"adc.FeaPING": "PING",
	"adc.FeaSEGA": "SEGA",
	"adc.FeaSIPR": "SIPR",
	"adc.FeaSUD1": "SUD1",
	"adc.FeaSUDP": "SUDP",
	"adc.FeaTCP4": "TCP4",
	"adc.FeaTCP6": "TCP6",
	"adc.FeaTIGR": "TIGR",
	"adc.FeaUCM0": "UCM0",
	"adc.FeaUCMD": "UCMD",
	"adc.FeaUDP4": "UDP4",
	"adc.FeaUDP6": "UDP6",
	"adc.FeaZLIF": "ZLIF",
	"adc.FeaZLIG": "ZLIG",
	"adc.FeaTS":   "TS00",
}

var vocabNames = map[string]string{
	"nmdc.ADCGet": "ADCGET", "nmdc.ADCSnd": "ADCSND", "nmdc.BadPass": "BadPass", "nmdc.BotINFO": "BotINFO", "nmdc.BotList": "BotList", "nmdc.ChatMessage": "", "nmdc.Close": "Close", "nmdc.ConnectToMe": "ConnectToMe", "nmdc.Direction": "Direction", "nmdc.Error": "Error", "nmdc.FailOver": "FailOver", "nmdc.Failed": "Failed", "nmdc.ForceMove": "ForceMove", "nmdc.GetNickList": "GetNickList", "nmdc.GetPass": "GetPass", "nmdc.GetTopic": "GetTopic", "nmdc.Hello": "Hello", "nmdc.HubINFO": "HubINFO", "nmdc.HubIsFull": "HubIsFull", "nmdc.HubName": "HubName", "nmdc.HubTopic": "HubTopic", "nmdc.Key": "Key", "nmdc.Kick": "Kick", "nmdc.Lock": "Lock", "nmdc.LogedIn": "LogedIn", "nmdc.MCTo": "MCTo", "nmdc.MaxedOut": "MaxedOut", "nmdc.MyINFO": "MyINFO", "nmdc.MyNick": "MyNick", "nmdc.MyPass": "MyPass", "nmdc.OpList": "OpList", "nmdc.PrivateMessage": "To:", "nmdc.Quit": "Quit", "nmdc.RevConnectToMe": "RevConnectToMe", "nmdc.SR": "SR", "nmdc.Search": "Search", "nmdc.SetIcon": "SetIcon", "nmdc.SetLogo": "SetLogo", "nmdc.SetTopic": "SetTopic", "nmdc.Supports": "Supports", "nmdc.TTHSearchActive": "SA", "nmdc.TTHSearchPassive": "SP", "nmdc.UserCommand": "UserCommand", "nmdc.UserIP": "UserIP", "nmdc.ValidateDenide": "ValidateDenide", "nmdc.ValidateNick": "ValidateNick", "nmdc.Version": "Version", "nmdc.ZOn": "ZOn",
	"adc.ChatMessage": "MSG", "adc.ConnectRequest": "CTM", "adc.Disconnect": "QUI", "adc.Error": "STA", "adc.GetInfoRequest": "GFI", "adc.GetPassword": "GPA", "adc.GetRequest": "GET", "adc.GetResponse": "SND", "adc.HubInfo": "INF", "adc.Password": "PAS", "adc.RevConnectRequest": "RCM", "adc.SIDAssign": "SID", "adc.SearchRequest": "SCH", "adc.SearchResult": "RES", "adc.Status": "STA", "adc.Supported": "SUP", "adc.UserCommand": "CMD", "adc.UserInfo": "INF", "adc.UserInfoMod": "INF", "adc.ZOff": "ZOF", "adc.ZOn": "ZON",
}

var vocabFields = map[string]map[string]string{
	"adc.ChatMessage": {
		"PM": "PM", "Me": "ME", "TS": "TS",
	},
	"adc.ConnectRequest": {
		"Proto": "#", "Port": "#", "Token": "#",
	},
	"adc.Disconnect": {
		"ID": "#", "Message": "MS", "By": "ID", "Duration": "TL", "Redirect": "RD",
	},
	"adc.GetInfoRequest": {
		"Type": "#", "Path": "#",
	},
	"adc.HubInfo": {
		"Name": "NI", "Version": "VE", "Application": "AP", "Desc": "DE", "Type": "CT", "Address": "HH", "Website": "WS", "Network": "NE", "Owner": "OW", "Users": "UC", "Share": "SS", "Files": "SF", "MinShare": "MS", "MaxShare": "XS", "MinSlots": "ML", "MaxSlots": "XL", "UsersLimit": "MC", "Uptime": "UP", "MaxHubsUser": "XU", "MaxHubsReg": "XR", "MaxHubsOp": "XO",
	},
	"adc.Password": {
		"Hash": "#",
	},
	"adc.RevConnectRequest": {
		"Proto": "#", "Token": "#",
	},
	"adc.SearchRequest": {
		"Token": "TO", "And": "AN", "Not": "NO", "Ext": "EX", "Le": "LE", "Ge": "GE", "Eq": "EQ", "Type": "TY", "TTH": "TR", "Group": "GR", "NoExt": "RX",
	},
	"adc.SearchResult": {
		"Token": "TO", "Path": "FN", "Size": "SI", "Slots": "SL", "TTH": "TR",
	},
	"adc.UserCommand": {
		"Path": "#", "Command": "TT", "Category": "CT", "Remove": "RM", "Constrained": "CO", "Separator": "SP",
	},
	"adc.UserInfo": {
		"Id": "ID", "Pid": "PD", "Name": "NI", "Ip4": "I4", "Ip6": "I6", "Udp4": "U4", "Udp6": "U6", "ShareSize": "SS", "ShareFiles": "SF", "Version": "VE", "Application": "AP", "MaxUpload": "US", "MaxDownload": "DS", "Slots": "SL", "SlotsFree": "FS", "AutoSlotLimit": "AS", "Email": "EM", "Desc": "DE", "HubsNormal": "HN", "HubsRegistered": "HR", "HubsOperator": "HO", "Token": "TO", "Type": "CT", "Away": "AW", "Ref": "RF", "Features": "SU", "KP": "KP", "Address": "EA",
	},
}
