// Written by tools/gen_bridge.py.
use super::*;

pub fn decode(name: &str, data: &[u8]) -> Option<String> {
    Some(match name {
        "RangingRoundControl" => one::<uci::RangingRoundControl>(data, |p, out| {
            let _ = (p, out);
        }),
        "ResultReportConfig" => one::<uci::ResultReportConfig>(data, |p, out| {
            let _ = (p, out);
        }),
        "CommonPacketHeader" => one::<uci::CommonPacketHeader>(data, |p, out| {
            let _ = (p, out);
        }),
        "ControlPacketHeader" => one::<uci::ControlPacketHeader>(data, |p, out| {
            let _ = (p, out);
        }),
        "DataPacketHeader" => one::<uci::DataPacketHeader>(data, |p, out| {
            let _ = (p, out);
        }),
        "ControlPacket" => one::<uci::ControlPacket>(data, |p, out| {
            let _ = (p, out);
        }),
        "DataPacket" => one::<uci::DataPacket>(data, |p, out| {
            let _ = (p, out);
        }),
        "DataMessageSnd" => one::<uci::DataMessageSnd>(data, |p, out| {
            up::<uci::DataMessageSnd, uci::DataPacket>(p, "DataPacket", out);
            back::<uci::DataMessageSnd, uci::DataPacket>(p, "DataPacket", out);
        }),
        "DataMessageRcv" => one::<uci::DataMessageRcv>(data, |p, out| {
            up::<uci::DataMessageRcv, uci::DataPacket>(p, "DataPacket", out);
            back::<uci::DataMessageRcv, uci::DataPacket>(p, "DataPacket", out);
        }),
        "CorePacket" => one::<uci::CorePacket>(data, |p, out| {
            up::<uci::CorePacket, uci::ControlPacket>(p, "ControlPacket", out);
            back::<uci::CorePacket, uci::ControlPacket>(p, "ControlPacket", out);
        }),
        "SessionConfigPacket" => one::<uci::SessionConfigPacket>(data, |p, out| {
            up::<uci::SessionConfigPacket, uci::ControlPacket>(p, "ControlPacket", out);
            back::<uci::SessionConfigPacket, uci::ControlPacket>(p, "ControlPacket", out);
        }),
        "SessionControlPacket" => one::<uci::SessionControlPacket>(data, |p, out| {
            up::<uci::SessionControlPacket, uci::ControlPacket>(p, "ControlPacket", out);
            back::<uci::SessionControlPacket, uci::ControlPacket>(p, "ControlPacket", out);
        }),
        "AndroidPacket" => one::<uci::AndroidPacket>(data, |p, out| {
            up::<uci::AndroidPacket, uci::ControlPacket>(p, "ControlPacket", out);
            back::<uci::AndroidPacket, uci::ControlPacket>(p, "ControlPacket", out);
        }),
        "CoreDeviceResetCmd" => one::<uci::CoreDeviceResetCmd>(data, |p, out| {
            up::<uci::CoreDeviceResetCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::CoreDeviceResetCmd, uci::CorePacket>(p, "CorePacket", out);
            back::<uci::CoreDeviceResetCmd, uci::CorePacket>(p, "CorePacket", out);
        }),
        "CoreDeviceResetRsp" => one::<uci::CoreDeviceResetRsp>(data, |p, out| {
            up::<uci::CoreDeviceResetRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::CoreDeviceResetRsp, uci::CorePacket>(p, "CorePacket", out);
            back::<uci::CoreDeviceResetRsp, uci::CorePacket>(p, "CorePacket", out);
        }),
        "CoreDeviceStatusNtf" => one::<uci::CoreDeviceStatusNtf>(data, |p, out| {
            up::<uci::CoreDeviceStatusNtf, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::CoreDeviceStatusNtf, uci::CorePacket>(p, "CorePacket", out);
            back::<uci::CoreDeviceStatusNtf, uci::CorePacket>(p, "CorePacket", out);
        }),
        "CoreGetDeviceInfoCmd" => one::<uci::CoreGetDeviceInfoCmd>(data, |p, out| {
            up::<uci::CoreGetDeviceInfoCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::CoreGetDeviceInfoCmd, uci::CorePacket>(p, "CorePacket", out);
            back::<uci::CoreGetDeviceInfoCmd, uci::CorePacket>(p, "CorePacket", out);
        }),
        "CoreGetDeviceInfoRsp" => one::<uci::CoreGetDeviceInfoRsp>(data, |p, out| {
            up::<uci::CoreGetDeviceInfoRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::CoreGetDeviceInfoRsp, uci::CorePacket>(p, "CorePacket", out);
            back::<uci::CoreGetDeviceInfoRsp, uci::CorePacket>(p, "CorePacket", out);
        }),
        "CoreGetCapsInfoCmd" => one::<uci::CoreGetCapsInfoCmd>(data, |p, out| {
            up::<uci::CoreGetCapsInfoCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::CoreGetCapsInfoCmd, uci::CorePacket>(p, "CorePacket", out);
            back::<uci::CoreGetCapsInfoCmd, uci::CorePacket>(p, "CorePacket", out);
        }),
        "CapTlv" => one::<uci::CapTlv>(data, |p, out| {
            let _ = (p, out);
        }),
        "CoreGetCapsInfoRsp" => one::<uci::CoreGetCapsInfoRsp>(data, |p, out| {
            up::<uci::CoreGetCapsInfoRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::CoreGetCapsInfoRsp, uci::CorePacket>(p, "CorePacket", out);
            back::<uci::CoreGetCapsInfoRsp, uci::CorePacket>(p, "CorePacket", out);
        }),
        "ConfigParameter" => one::<uci::ConfigParameter>(data, |p, out| {
            let _ = (p, out);
        }),
        "CoreSetConfigCmd" => one::<uci::CoreSetConfigCmd>(data, |p, out| {
            up::<uci::CoreSetConfigCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::CoreSetConfigCmd, uci::CorePacket>(p, "CorePacket", out);
            back::<uci::CoreSetConfigCmd, uci::CorePacket>(p, "CorePacket", out);
        }),
        "ConfigParameterStatus" => one::<uci::ConfigParameterStatus>(data, |p, out| {
            let _ = (p, out);
        }),
        "CoreSetConfigRsp" => one::<uci::CoreSetConfigRsp>(data, |p, out| {
            up::<uci::CoreSetConfigRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::CoreSetConfigRsp, uci::CorePacket>(p, "CorePacket", out);
            back::<uci::CoreSetConfigRsp, uci::CorePacket>(p, "CorePacket", out);
        }),
        "CoreGetConfigCmd" => one::<uci::CoreGetConfigCmd>(data, |p, out| {
            up::<uci::CoreGetConfigCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::CoreGetConfigCmd, uci::CorePacket>(p, "CorePacket", out);
            back::<uci::CoreGetConfigCmd, uci::CorePacket>(p, "CorePacket", out);
        }),
        "CoreGetConfigRsp" => one::<uci::CoreGetConfigRsp>(data, |p, out| {
            up::<uci::CoreGetConfigRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::CoreGetConfigRsp, uci::CorePacket>(p, "CorePacket", out);
            back::<uci::CoreGetConfigRsp, uci::CorePacket>(p, "CorePacket", out);
        }),
        "CoreGenericErrorNtf" => one::<uci::CoreGenericErrorNtf>(data, |p, out| {
            up::<uci::CoreGenericErrorNtf, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::CoreGenericErrorNtf, uci::CorePacket>(p, "CorePacket", out);
            back::<uci::CoreGenericErrorNtf, uci::CorePacket>(p, "CorePacket", out);
        }),
        "CoreQueryTimeStampCmd" => one::<uci::CoreQueryTimeStampCmd>(data, |p, out| {
            up::<uci::CoreQueryTimeStampCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::CoreQueryTimeStampCmd, uci::CorePacket>(p, "CorePacket", out);
            back::<uci::CoreQueryTimeStampCmd, uci::CorePacket>(p, "CorePacket", out);
        }),
        "CoreQueryTimeStampRsp" => one::<uci::CoreQueryTimeStampRsp>(data, |p, out| {
            up::<uci::CoreQueryTimeStampRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::CoreQueryTimeStampRsp, uci::CorePacket>(p, "CorePacket", out);
            back::<uci::CoreQueryTimeStampRsp, uci::CorePacket>(p, "CorePacket", out);
        }),
        "SessionInitCmd" => one::<uci::SessionInitCmd>(data, |p, out| {
            up::<uci::SessionInitCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionInitCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionInitCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionInitRsp_V2" => one::<uci::SessionInitRsp_V2>(data, |p, out| {
            up::<uci::SessionInitRsp_V2, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionInitRsp_V2, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionInitRsp_V2, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionInitRsp" => one::<uci::SessionInitRsp>(data, |p, out| {
            up::<uci::SessionInitRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionInitRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionInitRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionDeinitCmd" => one::<uci::SessionDeinitCmd>(data, |p, out| {
            up::<uci::SessionDeinitCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionDeinitCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionDeinitCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionDeinitRsp" => one::<uci::SessionDeinitRsp>(data, |p, out| {
            up::<uci::SessionDeinitRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionDeinitRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionDeinitRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionStatusNtf" => one::<uci::SessionStatusNtf>(data, |p, out| {
            up::<uci::SessionStatusNtf, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionStatusNtf, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionStatusNtf, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "AppConfigTlv" => one::<uci::AppConfigTlv>(data, |p, out| {
            let _ = (p, out);
        }),
        "SessionSetAppConfigCmd" => one::<uci::SessionSetAppConfigCmd>(data, |p, out| {
            up::<uci::SessionSetAppConfigCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionSetAppConfigCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionSetAppConfigCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "AppConfigStatus" => one::<uci::AppConfigStatus>(data, |p, out| {
            let _ = (p, out);
        }),
        "SessionSetAppConfigRsp" => one::<uci::SessionSetAppConfigRsp>(data, |p, out| {
            up::<uci::SessionSetAppConfigRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionSetAppConfigRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionSetAppConfigRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionGetAppConfigCmd" => one::<uci::SessionGetAppConfigCmd>(data, |p, out| {
            up::<uci::SessionGetAppConfigCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionGetAppConfigCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionGetAppConfigCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionGetAppConfigRsp" => one::<uci::SessionGetAppConfigRsp>(data, |p, out| {
            up::<uci::SessionGetAppConfigRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionGetAppConfigRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionGetAppConfigRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionGetCountCmd" => one::<uci::SessionGetCountCmd>(data, |p, out| {
            up::<uci::SessionGetCountCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionGetCountCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionGetCountCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionGetCountRsp" => one::<uci::SessionGetCountRsp>(data, |p, out| {
            up::<uci::SessionGetCountRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionGetCountRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionGetCountRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionGetStateCmd" => one::<uci::SessionGetStateCmd>(data, |p, out| {
            up::<uci::SessionGetStateCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionGetStateCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionGetStateCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionGetStateRsp" => one::<uci::SessionGetStateRsp>(data, |p, out| {
            up::<uci::SessionGetStateRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionGetStateRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionGetStateRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionUpdateDtAnchorRangingRoundsCmd" => one::<uci::SessionUpdateDtAnchorRangingRoundsCmd>(data, |p, out| {
            up::<uci::SessionUpdateDtAnchorRangingRoundsCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionUpdateDtAnchorRangingRoundsCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionUpdateDtAnchorRangingRoundsCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionUpdateDtAnchorRangingRoundsRsp" => one::<uci::SessionUpdateDtAnchorRangingRoundsRsp>(data, |p, out| {
            up::<uci::SessionUpdateDtAnchorRangingRoundsRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionUpdateDtAnchorRangingRoundsRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionUpdateDtAnchorRangingRoundsRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionUpdateDtTagRangingRoundsCmd" => one::<uci::SessionUpdateDtTagRangingRoundsCmd>(data, |p, out| {
            up::<uci::SessionUpdateDtTagRangingRoundsCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionUpdateDtTagRangingRoundsCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionUpdateDtTagRangingRoundsCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionUpdateDtTagRangingRoundsRsp" => one::<uci::SessionUpdateDtTagRangingRoundsRsp>(data, |p, out| {
            up::<uci::SessionUpdateDtTagRangingRoundsRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionUpdateDtTagRangingRoundsRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionUpdateDtTagRangingRoundsRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "Controlee" => one::<uci::Controlee>(data, |p, out| {
            let _ = (p, out);
        }),
        "Controlee_V2_0_16_Byte_Version" => one::<uci::Controlee_V2_0_16_Byte_Version>(data, |p, out| {
            let _ = (p, out);
        }),
        "Controlee_V2_0_32_Byte_Version" => one::<uci::Controlee_V2_0_32_Byte_Version>(data, |p, out| {
            let _ = (p, out);
        }),
        "SessionUpdateControllerMulticastListCmd" => one::<uci::SessionUpdateControllerMulticastListCmd>(data, |p, out| {
            up::<uci::SessionUpdateControllerMulticastListCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionUpdateControllerMulticastListCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionUpdateControllerMulticastListCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionUpdateControllerMulticastListCmdPayload" => one::<uci::SessionUpdateControllerMulticastListCmdPayload>(data, |p, out| {
            let _ = (p, out);
        }),
        "SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload" => one::<uci::SessionUpdateControllerMulticastListCmd_2_0_16_Byte_Payload>(data, |p, out| {
            let _ = (p, out);
        }),
        "SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload" => one::<uci::SessionUpdateControllerMulticastListCmd_2_0_32_Byte_Payload>(data, |p, out| {
            let _ = (p, out);
        }),
        "SessionUpdateControllerMulticastListRsp" => one::<uci::SessionUpdateControllerMulticastListRsp>(data, |p, out| {
            up::<uci::SessionUpdateControllerMulticastListRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionUpdateControllerMulticastListRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionUpdateControllerMulticastListRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "ControleeStatus" => one::<uci::ControleeStatus>(data, |p, out| {
            let _ = (p, out);
        }),
        "SessionUpdateControllerMulticastListNtf" => one::<uci::SessionUpdateControllerMulticastListNtf>(data, |p, out| {
            up::<uci::SessionUpdateControllerMulticastListNtf, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionUpdateControllerMulticastListNtf, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionUpdateControllerMulticastListNtf, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionDataCreditNtf" => one::<uci::SessionDataCreditNtf>(data, |p, out| {
            up::<uci::SessionDataCreditNtf, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionDataCreditNtf, uci::SessionControlPacket>(p, "SessionControlPacket", out);
            back::<uci::SessionDataCreditNtf, uci::SessionControlPacket>(p, "SessionControlPacket", out);
        }),
        "SessionDataTransferStatusNtf" => one::<uci::SessionDataTransferStatusNtf>(data, |p, out| {
            up::<uci::SessionDataTransferStatusNtf, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionDataTransferStatusNtf, uci::SessionControlPacket>(p, "SessionControlPacket", out);
            back::<uci::SessionDataTransferStatusNtf, uci::SessionControlPacket>(p, "SessionControlPacket", out);
        }),
        "SessionQueryMaxDataSizeInRangingCmd" => one::<uci::SessionQueryMaxDataSizeInRangingCmd>(data, |p, out| {
            up::<uci::SessionQueryMaxDataSizeInRangingCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionQueryMaxDataSizeInRangingCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionQueryMaxDataSizeInRangingCmd, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionQueryMaxDataSizeInRangingRsp" => one::<uci::SessionQueryMaxDataSizeInRangingRsp>(data, |p, out| {
            up::<uci::SessionQueryMaxDataSizeInRangingRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionQueryMaxDataSizeInRangingRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
            back::<uci::SessionQueryMaxDataSizeInRangingRsp, uci::SessionConfigPacket>(p, "SessionConfigPacket", out);
        }),
        "SessionStartCmd" => one::<uci::SessionStartCmd>(data, |p, out| {
            up::<uci::SessionStartCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionStartCmd, uci::SessionControlPacket>(p, "SessionControlPacket", out);
            back::<uci::SessionStartCmd, uci::SessionControlPacket>(p, "SessionControlPacket", out);
        }),
        "SessionStartRsp" => one::<uci::SessionStartRsp>(data, |p, out| {
            up::<uci::SessionStartRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionStartRsp, uci::SessionControlPacket>(p, "SessionControlPacket", out);
            back::<uci::SessionStartRsp, uci::SessionControlPacket>(p, "SessionControlPacket", out);
        }),
        "ShortAddressTwoWayRangingMeasurement" => one::<uci::ShortAddressTwoWayRangingMeasurement>(data, |p, out| {
            let _ = (p, out);
        }),
        "ExtendedAddressTwoWayRangingMeasurement" => one::<uci::ExtendedAddressTwoWayRangingMeasurement>(data, |p, out| {
            let _ = (p, out);
        }),
        "ShortAddressOwrAoaRangingMeasurement" => one::<uci::ShortAddressOwrAoaRangingMeasurement>(data, |p, out| {
            let _ = (p, out);
        }),
        "ExtendedAddressOwrAoaRangingMeasurement" => one::<uci::ExtendedAddressOwrAoaRangingMeasurement>(data, |p, out| {
            let _ = (p, out);
        }),
        "Wgs84Location" => one::<uci::Wgs84Location>(data, |p, out| {
            let _ = (p, out);
        }),
        "RelativeLocation" => one::<uci::RelativeLocation>(data, |p, out| {
            let _ = (p, out);
        }),
        "DlTdoaRangingMeasurement" => one::<uci::DlTdoaRangingMeasurement>(data, |p, out| {
            let _ = (p, out);
        }),
        "ShortAddressDlTdoaRangingMeasurement" => one::<uci::ShortAddressDlTdoaRangingMeasurement>(data, |p, out| {
            let _ = (p, out);
        }),
        "ExtendedAddressDlTdoaRangingMeasurement" => one::<uci::ExtendedAddressDlTdoaRangingMeasurement>(data, |p, out| {
            let _ = (p, out);
        }),
        "SessionInfoNtf" => one::<uci::SessionInfoNtf>(data, |p, out| {
            up::<uci::SessionInfoNtf, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionInfoNtf, uci::SessionControlPacket>(p, "SessionControlPacket", out);
            back::<uci::SessionInfoNtf, uci::SessionControlPacket>(p, "SessionControlPacket", out);
        }),
        "ShortMacTwoWaySessionInfoNtf" => one::<uci::ShortMacTwoWaySessionInfoNtf>(data, |p, out| {
            up::<uci::ShortMacTwoWaySessionInfoNtf, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::ShortMacTwoWaySessionInfoNtf, uci::SessionControlPacket>(p, "SessionControlPacket", out);
            up::<uci::ShortMacTwoWaySessionInfoNtf, uci::SessionInfoNtf>(p, "SessionInfoNtf", out);
            back::<uci::ShortMacTwoWaySessionInfoNtf, uci::SessionInfoNtf>(p, "SessionInfoNtf", out);
        }),
        "ExtendedMacTwoWaySessionInfoNtf" => one::<uci::ExtendedMacTwoWaySessionInfoNtf>(data, |p, out| {
            up::<uci::ExtendedMacTwoWaySessionInfoNtf, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::ExtendedMacTwoWaySessionInfoNtf, uci::SessionControlPacket>(p, "SessionControlPacket", out);
            up::<uci::ExtendedMacTwoWaySessionInfoNtf, uci::SessionInfoNtf>(p, "SessionInfoNtf", out);
            back::<uci::ExtendedMacTwoWaySessionInfoNtf, uci::SessionInfoNtf>(p, "SessionInfoNtf", out);
        }),
        "ShortMacDlTDoASessionInfoNtf" => one::<uci::ShortMacDlTDoASessionInfoNtf>(data, |p, out| {
            up::<uci::ShortMacDlTDoASessionInfoNtf, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::ShortMacDlTDoASessionInfoNtf, uci::SessionControlPacket>(p, "SessionControlPacket", out);
            up::<uci::ShortMacDlTDoASessionInfoNtf, uci::SessionInfoNtf>(p, "SessionInfoNtf", out);
            back::<uci::ShortMacDlTDoASessionInfoNtf, uci::SessionInfoNtf>(p, "SessionInfoNtf", out);
        }),
        "ExtendedMacDlTDoASessionInfoNtf" => one::<uci::ExtendedMacDlTDoASessionInfoNtf>(data, |p, out| {
            up::<uci::ExtendedMacDlTDoASessionInfoNtf, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::ExtendedMacDlTDoASessionInfoNtf, uci::SessionControlPacket>(p, "SessionControlPacket", out);
            up::<uci::ExtendedMacDlTDoASessionInfoNtf, uci::SessionInfoNtf>(p, "SessionInfoNtf", out);
            back::<uci::ExtendedMacDlTDoASessionInfoNtf, uci::SessionInfoNtf>(p, "SessionInfoNtf", out);
        }),
        "ShortMacOwrAoaSessionInfoNtf" => one::<uci::ShortMacOwrAoaSessionInfoNtf>(data, |p, out| {
            up::<uci::ShortMacOwrAoaSessionInfoNtf, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::ShortMacOwrAoaSessionInfoNtf, uci::SessionControlPacket>(p, "SessionControlPacket", out);
            up::<uci::ShortMacOwrAoaSessionInfoNtf, uci::SessionInfoNtf>(p, "SessionInfoNtf", out);
            back::<uci::ShortMacOwrAoaSessionInfoNtf, uci::SessionInfoNtf>(p, "SessionInfoNtf", out);
        }),
        "ExtendedMacOwrAoaSessionInfoNtf" => one::<uci::ExtendedMacOwrAoaSessionInfoNtf>(data, |p, out| {
            up::<uci::ExtendedMacOwrAoaSessionInfoNtf, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::ExtendedMacOwrAoaSessionInfoNtf, uci::SessionControlPacket>(p, "SessionControlPacket", out);
            up::<uci::ExtendedMacOwrAoaSessionInfoNtf, uci::SessionInfoNtf>(p, "SessionInfoNtf", out);
            back::<uci::ExtendedMacOwrAoaSessionInfoNtf, uci::SessionInfoNtf>(p, "SessionInfoNtf", out);
        }),
        "SessionStopCmd" => one::<uci::SessionStopCmd>(data, |p, out| {
            up::<uci::SessionStopCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionStopCmd, uci::SessionControlPacket>(p, "SessionControlPacket", out);
            back::<uci::SessionStopCmd, uci::SessionControlPacket>(p, "SessionControlPacket", out);
        }),
        "SessionStopRsp" => one::<uci::SessionStopRsp>(data, |p, out| {
            up::<uci::SessionStopRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionStopRsp, uci::SessionControlPacket>(p, "SessionControlPacket", out);
            back::<uci::SessionStopRsp, uci::SessionControlPacket>(p, "SessionControlPacket", out);
        }),
        "SessionGetRangingCountCmd" => one::<uci::SessionGetRangingCountCmd>(data, |p, out| {
            up::<uci::SessionGetRangingCountCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionGetRangingCountCmd, uci::SessionControlPacket>(p, "SessionControlPacket", out);
            back::<uci::SessionGetRangingCountCmd, uci::SessionControlPacket>(p, "SessionControlPacket", out);
        }),
        "SessionGetRangingCountRsp" => one::<uci::SessionGetRangingCountRsp>(data, |p, out| {
            up::<uci::SessionGetRangingCountRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::SessionGetRangingCountRsp, uci::SessionControlPacket>(p, "SessionControlPacket", out);
            back::<uci::SessionGetRangingCountRsp, uci::SessionControlPacket>(p, "SessionControlPacket", out);
        }),
        "AndroidGetPowerStatsCmd" => one::<uci::AndroidGetPowerStatsCmd>(data, |p, out| {
            up::<uci::AndroidGetPowerStatsCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::AndroidGetPowerStatsCmd, uci::AndroidPacket>(p, "AndroidPacket", out);
            back::<uci::AndroidGetPowerStatsCmd, uci::AndroidPacket>(p, "AndroidPacket", out);
        }),
        "PowerStats" => one::<uci::PowerStats>(data, |p, out| {
            let _ = (p, out);
        }),
        "AndroidGetPowerStatsRsp" => one::<uci::AndroidGetPowerStatsRsp>(data, |p, out| {
            up::<uci::AndroidGetPowerStatsRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::AndroidGetPowerStatsRsp, uci::AndroidPacket>(p, "AndroidPacket", out);
            back::<uci::AndroidGetPowerStatsRsp, uci::AndroidPacket>(p, "AndroidPacket", out);
        }),
        "AndroidSetCountryCodeCmd" => one::<uci::AndroidSetCountryCodeCmd>(data, |p, out| {
            up::<uci::AndroidSetCountryCodeCmd, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::AndroidSetCountryCodeCmd, uci::AndroidPacket>(p, "AndroidPacket", out);
            back::<uci::AndroidSetCountryCodeCmd, uci::AndroidPacket>(p, "AndroidPacket", out);
        }),
        "AndroidSetCountryCodeRsp" => one::<uci::AndroidSetCountryCodeRsp>(data, |p, out| {
            up::<uci::AndroidSetCountryCodeRsp, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::AndroidSetCountryCodeRsp, uci::AndroidPacket>(p, "AndroidPacket", out);
            back::<uci::AndroidSetCountryCodeRsp, uci::AndroidPacket>(p, "AndroidPacket", out);
        }),
        "FrameReportTlv" => one::<uci::FrameReportTlv>(data, |p, out| {
            let _ = (p, out);
        }),
        "FrameReportTlvPacket" => one::<uci::FrameReportTlvPacket>(data, |p, out| {
            let _ = (p, out);
        }),
        "Rssi" => one::<uci::Rssi>(data, |p, out| {
            up::<uci::Rssi, uci::FrameReportTlvPacket>(p, "FrameReportTlvPacket", out);
            back::<uci::Rssi, uci::FrameReportTlvPacket>(p, "FrameReportTlvPacket", out);
        }),
        "AoaMeasurement" => one::<uci::AoaMeasurement>(data, |p, out| {
            let _ = (p, out);
        }),
        "Aoa" => one::<uci::Aoa>(data, |p, out| {
            up::<uci::Aoa, uci::FrameReportTlvPacket>(p, "FrameReportTlvPacket", out);
            back::<uci::Aoa, uci::FrameReportTlvPacket>(p, "FrameReportTlvPacket", out);
        }),
        "CirValue" => one::<uci::CirValue>(data, |p, out| {
            let _ = (p, out);
        }),
        "Cir" => one::<uci::Cir>(data, |p, out| {
            up::<uci::Cir, uci::FrameReportTlvPacket>(p, "FrameReportTlvPacket", out);
            back::<uci::Cir, uci::FrameReportTlvPacket>(p, "FrameReportTlvPacket", out);
        }),
        "FrameReport" => one::<uci::FrameReport>(data, |p, out| {
            let _ = (p, out);
        }),
        "AndroidRangeDiagnosticsNtf" => one::<uci::AndroidRangeDiagnosticsNtf>(data, |p, out| {
            up::<uci::AndroidRangeDiagnosticsNtf, uci::ControlPacket>(p, "ControlPacket", out);
            up::<uci::AndroidRangeDiagnosticsNtf, uci::AndroidPacket>(p, "AndroidPacket", out);
            back::<uci::AndroidRangeDiagnosticsNtf, uci::AndroidPacket>(p, "AndroidPacket", out);
        }),
        _ => return None,
    })
}

pub fn specialize(name: &str, data: &[u8]) -> Option<String> {
    Some(match name {
        "ControlPacket" => root(data, leaf_ControlPacket),
        "DataPacket" => root(data, leaf_DataPacket),
        "FrameReportTlvPacket" => root(data, leaf_FrameReportTlvPacket),
        _ => return None,
    })
}

#[allow(non_snake_case)]
fn leaf_ControlPacket(p: &uci::ControlPacket) -> String {
    match p.specialize() {
        Ok(uci::ControlPacketChild::CorePacket(c)) => leaf_CorePacket(&c),
        Ok(uci::ControlPacketChild::SessionConfigPacket(c)) => leaf_SessionConfigPacket(&c),
        Ok(uci::ControlPacketChild::SessionControlPacket(c)) => leaf_SessionControlPacket(&c),
        Ok(uci::ControlPacketChild::AndroidPacket(c)) => leaf_AndroidPacket(&c),
        Ok(uci::ControlPacketChild::None) => format!("ControlPacket {p:?}"),
        Err(_) => format!("!ControlPacket {p:?}"),
    }
}

#[allow(non_snake_case)]
fn leaf_DataPacket(p: &uci::DataPacket) -> String {
    match p.specialize() {
        Ok(uci::DataPacketChild::DataMessageSnd(c)) => leaf_DataMessageSnd(&c),
        Ok(uci::DataPacketChild::DataMessageRcv(c)) => leaf_DataMessageRcv(&c),
        Ok(uci::DataPacketChild::None) => format!("DataPacket {p:?}"),
        Err(_) => format!("!DataPacket {p:?}"),
    }
}

#[allow(non_snake_case)]
fn leaf_DataMessageSnd(p: &uci::DataMessageSnd) -> String {
    format!("DataMessageSnd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_DataMessageRcv(p: &uci::DataMessageRcv) -> String {
    format!("DataMessageRcv {p:?}")
}

#[allow(non_snake_case)]
fn leaf_CorePacket(p: &uci::CorePacket) -> String {
    match p.specialize() {
        Ok(uci::CorePacketChild::CoreDeviceResetCmd(c)) => leaf_CoreDeviceResetCmd(&c),
        Ok(uci::CorePacketChild::CoreDeviceResetRsp(c)) => leaf_CoreDeviceResetRsp(&c),
        Ok(uci::CorePacketChild::CoreDeviceStatusNtf(c)) => leaf_CoreDeviceStatusNtf(&c),
        Ok(uci::CorePacketChild::CoreGetDeviceInfoCmd(c)) => leaf_CoreGetDeviceInfoCmd(&c),
        Ok(uci::CorePacketChild::CoreGetDeviceInfoRsp(c)) => leaf_CoreGetDeviceInfoRsp(&c),
        Ok(uci::CorePacketChild::CoreGetCapsInfoCmd(c)) => leaf_CoreGetCapsInfoCmd(&c),
        Ok(uci::CorePacketChild::CoreGetCapsInfoRsp(c)) => leaf_CoreGetCapsInfoRsp(&c),
        Ok(uci::CorePacketChild::CoreSetConfigCmd(c)) => leaf_CoreSetConfigCmd(&c),
        Ok(uci::CorePacketChild::CoreSetConfigRsp(c)) => leaf_CoreSetConfigRsp(&c),
        Ok(uci::CorePacketChild::CoreGetConfigCmd(c)) => leaf_CoreGetConfigCmd(&c),
        Ok(uci::CorePacketChild::CoreGetConfigRsp(c)) => leaf_CoreGetConfigRsp(&c),
        Ok(uci::CorePacketChild::CoreGenericErrorNtf(c)) => leaf_CoreGenericErrorNtf(&c),
        Ok(uci::CorePacketChild::CoreQueryTimeStampCmd(c)) => leaf_CoreQueryTimeStampCmd(&c),
        Ok(uci::CorePacketChild::CoreQueryTimeStampRsp(c)) => leaf_CoreQueryTimeStampRsp(&c),
        Ok(uci::CorePacketChild::None) => format!("CorePacket {p:?}"),
        Err(_) => format!("!CorePacket {p:?}"),
    }
}

#[allow(non_snake_case)]
fn leaf_SessionConfigPacket(p: &uci::SessionConfigPacket) -> String {
    match p.specialize() {
        Ok(uci::SessionConfigPacketChild::SessionInitCmd(c)) => leaf_SessionInitCmd(&c),
        Ok(uci::SessionConfigPacketChild::SessionInitRsp_V2(c)) => leaf_SessionInitRsp_V2(&c),
        Ok(uci::SessionConfigPacketChild::SessionInitRsp(c)) => leaf_SessionInitRsp(&c),
        Ok(uci::SessionConfigPacketChild::SessionDeinitCmd(c)) => leaf_SessionDeinitCmd(&c),
        Ok(uci::SessionConfigPacketChild::SessionDeinitRsp(c)) => leaf_SessionDeinitRsp(&c),
        Ok(uci::SessionConfigPacketChild::SessionStatusNtf(c)) => leaf_SessionStatusNtf(&c),
        Ok(uci::SessionConfigPacketChild::SessionSetAppConfigCmd(c)) => leaf_SessionSetAppConfigCmd(&c),
        Ok(uci::SessionConfigPacketChild::SessionSetAppConfigRsp(c)) => leaf_SessionSetAppConfigRsp(&c),
        Ok(uci::SessionConfigPacketChild::SessionGetAppConfigCmd(c)) => leaf_SessionGetAppConfigCmd(&c),
        Ok(uci::SessionConfigPacketChild::SessionGetAppConfigRsp(c)) => leaf_SessionGetAppConfigRsp(&c),
        Ok(uci::SessionConfigPacketChild::SessionGetCountCmd(c)) => leaf_SessionGetCountCmd(&c),
        Ok(uci::SessionConfigPacketChild::SessionGetCountRsp(c)) => leaf_SessionGetCountRsp(&c),
        Ok(uci::SessionConfigPacketChild::SessionGetStateCmd(c)) => leaf_SessionGetStateCmd(&c),
        Ok(uci::SessionConfigPacketChild::SessionGetStateRsp(c)) => leaf_SessionGetStateRsp(&c),
        Ok(uci::SessionConfigPacketChild::SessionUpdateDtAnchorRangingRoundsCmd(c)) => leaf_SessionUpdateDtAnchorRangingRoundsCmd(&c),
        Ok(uci::SessionConfigPacketChild::SessionUpdateDtAnchorRangingRoundsRsp(c)) => leaf_SessionUpdateDtAnchorRangingRoundsRsp(&c),
        Ok(uci::SessionConfigPacketChild::SessionUpdateDtTagRangingRoundsCmd(c)) => leaf_SessionUpdateDtTagRangingRoundsCmd(&c),
        Ok(uci::SessionConfigPacketChild::SessionUpdateDtTagRangingRoundsRsp(c)) => leaf_SessionUpdateDtTagRangingRoundsRsp(&c),
        Ok(uci::SessionConfigPacketChild::SessionUpdateControllerMulticastListCmd(c)) => leaf_SessionUpdateControllerMulticastListCmd(&c),
        Ok(uci::SessionConfigPacketChild::SessionUpdateControllerMulticastListRsp(c)) => leaf_SessionUpdateControllerMulticastListRsp(&c),
        Ok(uci::SessionConfigPacketChild::SessionUpdateControllerMulticastListNtf(c)) => leaf_SessionUpdateControllerMulticastListNtf(&c),
        Ok(uci::SessionConfigPacketChild::SessionQueryMaxDataSizeInRangingCmd(c)) => leaf_SessionQueryMaxDataSizeInRangingCmd(&c),
        Ok(uci::SessionConfigPacketChild::SessionQueryMaxDataSizeInRangingRsp(c)) => leaf_SessionQueryMaxDataSizeInRangingRsp(&c),
        Ok(uci::SessionConfigPacketChild::None) => format!("SessionConfigPacket {p:?}"),
        Err(_) => format!("!SessionConfigPacket {p:?}"),
    }
}

#[allow(non_snake_case)]
fn leaf_SessionControlPacket(p: &uci::SessionControlPacket) -> String {
    match p.specialize() {
        Ok(uci::SessionControlPacketChild::SessionDataCreditNtf(c)) => leaf_SessionDataCreditNtf(&c),
        Ok(uci::SessionControlPacketChild::SessionDataTransferStatusNtf(c)) => leaf_SessionDataTransferStatusNtf(&c),
        Ok(uci::SessionControlPacketChild::SessionStartCmd(c)) => leaf_SessionStartCmd(&c),
        Ok(uci::SessionControlPacketChild::SessionStartRsp(c)) => leaf_SessionStartRsp(&c),
        Ok(uci::SessionControlPacketChild::SessionInfoNtf(c)) => leaf_SessionInfoNtf(&c),
        Ok(uci::SessionControlPacketChild::SessionStopCmd(c)) => leaf_SessionStopCmd(&c),
        Ok(uci::SessionControlPacketChild::SessionStopRsp(c)) => leaf_SessionStopRsp(&c),
        Ok(uci::SessionControlPacketChild::SessionGetRangingCountCmd(c)) => leaf_SessionGetRangingCountCmd(&c),
        Ok(uci::SessionControlPacketChild::SessionGetRangingCountRsp(c)) => leaf_SessionGetRangingCountRsp(&c),
        Ok(uci::SessionControlPacketChild::None) => format!("SessionControlPacket {p:?}"),
        Err(_) => format!("!SessionControlPacket {p:?}"),
    }
}

#[allow(non_snake_case)]
fn leaf_AndroidPacket(p: &uci::AndroidPacket) -> String {
    match p.specialize() {
        Ok(uci::AndroidPacketChild::AndroidGetPowerStatsCmd(c)) => leaf_AndroidGetPowerStatsCmd(&c),
        Ok(uci::AndroidPacketChild::AndroidGetPowerStatsRsp(c)) => leaf_AndroidGetPowerStatsRsp(&c),
        Ok(uci::AndroidPacketChild::AndroidSetCountryCodeCmd(c)) => leaf_AndroidSetCountryCodeCmd(&c),
        Ok(uci::AndroidPacketChild::AndroidSetCountryCodeRsp(c)) => leaf_AndroidSetCountryCodeRsp(&c),
        Ok(uci::AndroidPacketChild::AndroidRangeDiagnosticsNtf(c)) => leaf_AndroidRangeDiagnosticsNtf(&c),
        Ok(uci::AndroidPacketChild::None) => format!("AndroidPacket {p:?}"),
        Err(_) => format!("!AndroidPacket {p:?}"),
    }
}

#[allow(non_snake_case)]
fn leaf_CoreDeviceResetCmd(p: &uci::CoreDeviceResetCmd) -> String {
    format!("CoreDeviceResetCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_CoreDeviceResetRsp(p: &uci::CoreDeviceResetRsp) -> String {
    format!("CoreDeviceResetRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_CoreDeviceStatusNtf(p: &uci::CoreDeviceStatusNtf) -> String {
    format!("CoreDeviceStatusNtf {p:?}")
}

#[allow(non_snake_case)]
fn leaf_CoreGetDeviceInfoCmd(p: &uci::CoreGetDeviceInfoCmd) -> String {
    format!("CoreGetDeviceInfoCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_CoreGetDeviceInfoRsp(p: &uci::CoreGetDeviceInfoRsp) -> String {
    format!("CoreGetDeviceInfoRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_CoreGetCapsInfoCmd(p: &uci::CoreGetCapsInfoCmd) -> String {
    format!("CoreGetCapsInfoCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_CoreGetCapsInfoRsp(p: &uci::CoreGetCapsInfoRsp) -> String {
    format!("CoreGetCapsInfoRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_CoreSetConfigCmd(p: &uci::CoreSetConfigCmd) -> String {
    format!("CoreSetConfigCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_CoreSetConfigRsp(p: &uci::CoreSetConfigRsp) -> String {
    format!("CoreSetConfigRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_CoreGetConfigCmd(p: &uci::CoreGetConfigCmd) -> String {
    format!("CoreGetConfigCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_CoreGetConfigRsp(p: &uci::CoreGetConfigRsp) -> String {
    format!("CoreGetConfigRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_CoreGenericErrorNtf(p: &uci::CoreGenericErrorNtf) -> String {
    format!("CoreGenericErrorNtf {p:?}")
}

#[allow(non_snake_case)]
fn leaf_CoreQueryTimeStampCmd(p: &uci::CoreQueryTimeStampCmd) -> String {
    format!("CoreQueryTimeStampCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_CoreQueryTimeStampRsp(p: &uci::CoreQueryTimeStampRsp) -> String {
    format!("CoreQueryTimeStampRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionInitCmd(p: &uci::SessionInitCmd) -> String {
    format!("SessionInitCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionInitRsp_V2(p: &uci::SessionInitRsp_V2) -> String {
    format!("SessionInitRsp_V2 {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionInitRsp(p: &uci::SessionInitRsp) -> String {
    format!("SessionInitRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionDeinitCmd(p: &uci::SessionDeinitCmd) -> String {
    format!("SessionDeinitCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionDeinitRsp(p: &uci::SessionDeinitRsp) -> String {
    format!("SessionDeinitRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionStatusNtf(p: &uci::SessionStatusNtf) -> String {
    format!("SessionStatusNtf {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionSetAppConfigCmd(p: &uci::SessionSetAppConfigCmd) -> String {
    format!("SessionSetAppConfigCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionSetAppConfigRsp(p: &uci::SessionSetAppConfigRsp) -> String {
    format!("SessionSetAppConfigRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionGetAppConfigCmd(p: &uci::SessionGetAppConfigCmd) -> String {
    format!("SessionGetAppConfigCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionGetAppConfigRsp(p: &uci::SessionGetAppConfigRsp) -> String {
    format!("SessionGetAppConfigRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionGetCountCmd(p: &uci::SessionGetCountCmd) -> String {
    format!("SessionGetCountCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionGetCountRsp(p: &uci::SessionGetCountRsp) -> String {
    format!("SessionGetCountRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionGetStateCmd(p: &uci::SessionGetStateCmd) -> String {
    format!("SessionGetStateCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionGetStateRsp(p: &uci::SessionGetStateRsp) -> String {
    format!("SessionGetStateRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionUpdateDtAnchorRangingRoundsCmd(p: &uci::SessionUpdateDtAnchorRangingRoundsCmd) -> String {
    format!("SessionUpdateDtAnchorRangingRoundsCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionUpdateDtAnchorRangingRoundsRsp(p: &uci::SessionUpdateDtAnchorRangingRoundsRsp) -> String {
    format!("SessionUpdateDtAnchorRangingRoundsRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionUpdateDtTagRangingRoundsCmd(p: &uci::SessionUpdateDtTagRangingRoundsCmd) -> String {
    format!("SessionUpdateDtTagRangingRoundsCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionUpdateDtTagRangingRoundsRsp(p: &uci::SessionUpdateDtTagRangingRoundsRsp) -> String {
    format!("SessionUpdateDtTagRangingRoundsRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionUpdateControllerMulticastListCmd(p: &uci::SessionUpdateControllerMulticastListCmd) -> String {
    format!("SessionUpdateControllerMulticastListCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionUpdateControllerMulticastListRsp(p: &uci::SessionUpdateControllerMulticastListRsp) -> String {
    format!("SessionUpdateControllerMulticastListRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionUpdateControllerMulticastListNtf(p: &uci::SessionUpdateControllerMulticastListNtf) -> String {
    format!("SessionUpdateControllerMulticastListNtf {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionDataCreditNtf(p: &uci::SessionDataCreditNtf) -> String {
    format!("SessionDataCreditNtf {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionDataTransferStatusNtf(p: &uci::SessionDataTransferStatusNtf) -> String {
    format!("SessionDataTransferStatusNtf {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionQueryMaxDataSizeInRangingCmd(p: &uci::SessionQueryMaxDataSizeInRangingCmd) -> String {
    format!("SessionQueryMaxDataSizeInRangingCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionQueryMaxDataSizeInRangingRsp(p: &uci::SessionQueryMaxDataSizeInRangingRsp) -> String {
    format!("SessionQueryMaxDataSizeInRangingRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionStartCmd(p: &uci::SessionStartCmd) -> String {
    format!("SessionStartCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionStartRsp(p: &uci::SessionStartRsp) -> String {
    format!("SessionStartRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionInfoNtf(p: &uci::SessionInfoNtf) -> String {
    match p.specialize() {
        Ok(uci::SessionInfoNtfChild::ShortMacTwoWaySessionInfoNtf(c)) => leaf_ShortMacTwoWaySessionInfoNtf(&c),
        Ok(uci::SessionInfoNtfChild::ExtendedMacTwoWaySessionInfoNtf(c)) => leaf_ExtendedMacTwoWaySessionInfoNtf(&c),
        Ok(uci::SessionInfoNtfChild::ShortMacDlTDoASessionInfoNtf(c)) => leaf_ShortMacDlTDoASessionInfoNtf(&c),
        Ok(uci::SessionInfoNtfChild::ExtendedMacDlTDoASessionInfoNtf(c)) => leaf_ExtendedMacDlTDoASessionInfoNtf(&c),
        Ok(uci::SessionInfoNtfChild::ShortMacOwrAoaSessionInfoNtf(c)) => leaf_ShortMacOwrAoaSessionInfoNtf(&c),
        Ok(uci::SessionInfoNtfChild::ExtendedMacOwrAoaSessionInfoNtf(c)) => leaf_ExtendedMacOwrAoaSessionInfoNtf(&c),
        Ok(uci::SessionInfoNtfChild::None) => format!("SessionInfoNtf {p:?}"),
        Err(_) => format!("!SessionInfoNtf {p:?}"),
    }
}

#[allow(non_snake_case)]
fn leaf_ShortMacTwoWaySessionInfoNtf(p: &uci::ShortMacTwoWaySessionInfoNtf) -> String {
    format!("ShortMacTwoWaySessionInfoNtf {p:?}")
}

#[allow(non_snake_case)]
fn leaf_ExtendedMacTwoWaySessionInfoNtf(p: &uci::ExtendedMacTwoWaySessionInfoNtf) -> String {
    format!("ExtendedMacTwoWaySessionInfoNtf {p:?}")
}

#[allow(non_snake_case)]
fn leaf_ShortMacDlTDoASessionInfoNtf(p: &uci::ShortMacDlTDoASessionInfoNtf) -> String {
    format!("ShortMacDlTDoASessionInfoNtf {p:?}")
}

#[allow(non_snake_case)]
fn leaf_ExtendedMacDlTDoASessionInfoNtf(p: &uci::ExtendedMacDlTDoASessionInfoNtf) -> String {
    format!("ExtendedMacDlTDoASessionInfoNtf {p:?}")
}

#[allow(non_snake_case)]
fn leaf_ShortMacOwrAoaSessionInfoNtf(p: &uci::ShortMacOwrAoaSessionInfoNtf) -> String {
    format!("ShortMacOwrAoaSessionInfoNtf {p:?}")
}

#[allow(non_snake_case)]
fn leaf_ExtendedMacOwrAoaSessionInfoNtf(p: &uci::ExtendedMacOwrAoaSessionInfoNtf) -> String {
    format!("ExtendedMacOwrAoaSessionInfoNtf {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionStopCmd(p: &uci::SessionStopCmd) -> String {
    format!("SessionStopCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionStopRsp(p: &uci::SessionStopRsp) -> String {
    format!("SessionStopRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionGetRangingCountCmd(p: &uci::SessionGetRangingCountCmd) -> String {
    format!("SessionGetRangingCountCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_SessionGetRangingCountRsp(p: &uci::SessionGetRangingCountRsp) -> String {
    format!("SessionGetRangingCountRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_AndroidGetPowerStatsCmd(p: &uci::AndroidGetPowerStatsCmd) -> String {
    format!("AndroidGetPowerStatsCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_AndroidGetPowerStatsRsp(p: &uci::AndroidGetPowerStatsRsp) -> String {
    format!("AndroidGetPowerStatsRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_AndroidSetCountryCodeCmd(p: &uci::AndroidSetCountryCodeCmd) -> String {
    format!("AndroidSetCountryCodeCmd {p:?}")
}

#[allow(non_snake_case)]
fn leaf_AndroidSetCountryCodeRsp(p: &uci::AndroidSetCountryCodeRsp) -> String {
    format!("AndroidSetCountryCodeRsp {p:?}")
}

#[allow(non_snake_case)]
fn leaf_FrameReportTlvPacket(p: &uci::FrameReportTlvPacket) -> String {
    match p.specialize() {
        Ok(uci::FrameReportTlvPacketChild::Rssi(c)) => leaf_Rssi(&c),
        Ok(uci::FrameReportTlvPacketChild::Aoa(c)) => leaf_Aoa(&c),
        Ok(uci::FrameReportTlvPacketChild::Cir(c)) => leaf_Cir(&c),
        Ok(uci::FrameReportTlvPacketChild::None) => format!("FrameReportTlvPacket {p:?}"),
        Err(_) => format!("!FrameReportTlvPacket {p:?}"),
    }
}

#[allow(non_snake_case)]
fn leaf_Rssi(p: &uci::Rssi) -> String {
    format!("Rssi {p:?}")
}

#[allow(non_snake_case)]
fn leaf_Aoa(p: &uci::Aoa) -> String {
    format!("Aoa {p:?}")
}

#[allow(non_snake_case)]
fn leaf_Cir(p: &uci::Cir) -> String {
    format!("Cir {p:?}")
}

#[allow(non_snake_case)]
fn leaf_AndroidRangeDiagnosticsNtf(p: &uci::AndroidRangeDiagnosticsNtf) -> String {
    format!("AndroidRangeDiagnosticsNtf {p:?}")
}

pub fn enums(f: &mut impl FnMut(&str, u64, Option<(String, u64)>)) {
    for v in 0..=255u8 {
        f("PacketBoundaryFlag", v as u64, uci::PacketBoundaryFlag::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("MessageType", v as u64, uci::MessageType::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("GroupId", v as u64, uci::GroupId::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("DataPacketFormat", v as u64, uci::DataPacketFormat::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("CoreOpcodeId", v as u64, uci::CoreOpcodeId::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("SessionConfigOpcodeId", v as u64, uci::SessionConfigOpcodeId::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("SessionControlOpcodeId", v as u64, uci::SessionControlOpcodeId::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("AndroidOpcodeId", v as u64, uci::AndroidOpcodeId::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("Status", v as u64, uci::Status::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("DataRcvStatusCode", v as u64, uci::DataRcvStatusCode::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("CreditAvailability", v as u64, uci::CreditAvailability::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("DataTransferNtfStatusCode", v as u64, uci::DataTransferNtfStatusCode::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("ResetConfig", v as u64, uci::ResetConfig::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("AppConfigTlvType", v as u64, uci::AppConfigTlvType::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("DeviceType", v as u64, uci::DeviceType::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("RangingRoundUsage", v as u64, uci::RangingRoundUsage::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("StsConfig", v as u64, uci::StsConfig::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("MultiNodeMode", v as u64, uci::MultiNodeMode::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("ChannelNumber", v as u64, uci::ChannelNumber::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("MacFcsType", v as u64, uci::MacFcsType::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("AoaResultReq", v as u64, uci::AoaResultReq::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("SessionInfoNtfConfig", v as u64, uci::SessionInfoNtfConfig::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("DeviceRole", v as u64, uci::DeviceRole::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("RframeConfig", v as u64, uci::RframeConfig::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("RssiReporting", v as u64, uci::RssiReporting::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("PsduDataRate", v as u64, uci::PsduDataRate::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("PreambleDuration", v as u64, uci::PreambleDuration::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("LinkLayerMode", v as u64, uci::LinkLayerMode::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("RangingTimeStruct", v as u64, uci::RangingTimeStruct::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("PrfMode", v as u64, uci::PrfMode::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("ScheduleMode", v as u64, uci::ScheduleMode::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("KeyRotation", v as u64, uci::KeyRotation::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("MacAddressMode", v as u64, uci::MacAddressMode::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("HoppingMode", v as u64, uci::HoppingMode::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("BprfPhrDataRate", v as u64, uci::BprfPhrDataRate::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("StsLength", v as u64, uci::StsLength::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("DlTdoaRangingMethod", v as u64, uci::DlTdoaRangingMethod::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("DlTdoaAnchorCfo", v as u64, uci::DlTdoaAnchorCfo::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("SessionDataTransferStatusNtfConfig", v as u64, uci::SessionDataTransferStatusNtfConfig::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("CapTlvType", v as u64, uci::CapTlvType::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("AoaResultReqType", v as u64, uci::AoaResultReqType::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("DeviceState", v as u64, uci::DeviceState::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("SessionState", v as u64, uci::SessionState::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("ReasonCode", v as u64, uci::ReasonCode::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("MulticastUpdateStatus", v as u64, uci::MulticastUpdateStatus::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("MacAddressIndicator", v as u64, uci::MacAddressIndicator::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("SessionType", v as u64, uci::SessionType::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("ConfigParameterId", v as u64, uci::ConfigParameterId::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("UpdateMulticastListAction", v as u64, uci::UpdateMulticastListAction::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("RangingMeasurementType", v as u64, uci::RangingMeasurementType::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
    for v in 0..=255u8 {
        f("FrameReportTlvType", v as u64, uci::FrameReportTlvType::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));
    }
}
