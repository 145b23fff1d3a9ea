//! The statements' hierarchies and how balance sheets and profit and loss feed cash flow lines,
//! as the reference model has them. Totals are listed after everything they are made of.

use financelib::statements::{BsType, CfType, PlType};

pub const BS_ALL: &[BsType] = &[
    BsType::Cash,
    BsType::CurrentReceivables,
    BsType::CurrentLoans,
    BsType::CurrentAdvances,
    BsType::OtherCurrentAssets,
    BsType::CurrentInvestments,
    BsType::Inventories,
    BsType::RawMaterials,
    BsType::WorkInProgress,
    BsType::FinishedGoods,
    BsType::CurrentAssets,
    BsType::AccountReceivables,
    BsType::LongTermLoanAssets,
    BsType::LongTermAdvances,
    BsType::LongTermInvestments,
    BsType::OtherLongTermAssets,
    BsType::PlantPropertyEquipment,
    BsType::AccumulatedDepreciation,
    BsType::NetPlantPropertyEquipment,
    BsType::LeasingRentalAssets,
    BsType::AccumulatedAmortizationLease,
    BsType::NetLeaseRentalAssets,
    BsType::Goodwill,
    BsType::CapitalWip,
    BsType::OtherTangibleAssets,
    BsType::IntangibleAssets,
    BsType::IntangibleAssetsDevelopment,
    BsType::AccumulatedAmortization,
    BsType::NetIntangibleAssets,
    BsType::LongTermAssets,
    BsType::Assets,
    BsType::CurrentPayables,
    BsType::CurrentBorrowings,
    BsType::CurrentNotesPayable,
    BsType::OtherCurrentLiabilities,
    BsType::InterestPayable,
    BsType::CurrentProvisions,
    BsType::CurrentTaxPayables,
    BsType::LiabilitiesSaleAssets,
    BsType::CurrentLeasesLiability,
    BsType::CurrentLiabilities,
    BsType::AccountPayables,
    BsType::LongTermBorrowings,
    BsType::BondsPayable,
    BsType::DeferredTaxLiabilities,
    BsType::LongTermLeasesLiability,
    BsType::DeferredCompensation,
    BsType::DeferredRevenues,
    BsType::CustomerDeposits,
    BsType::OtherLongTermLiabilities,
    BsType::PensionProvision,
    BsType::TaxProvision,
    BsType::LongTermProvision,
    BsType::LongTermLiabilities,
    BsType::Liabilities,
    BsType::CommonStock,
    BsType::PreferredStock,
    BsType::PdInCapAbovePar,
    BsType::PdInCapTreasuryStock,
    BsType::RevaluationReserves,
    BsType::Reserves,
    BsType::RetainedEarnings,
    BsType::AccumulatedOCI,
    BsType::MinorityInterests,
    BsType::Equity,
    BsType::BalanceSheetCheck,
];

pub const PL_ALL: &[PlType] = &[
    PlType::OperatingRevenue,
    PlType::NonOperatingRevenue,
    PlType::ExciseStaxLevy,
    PlType::OtherIncome,
    PlType::Revenue,
    PlType::CostMaterial,
    PlType::DirectExpenses,
    PlType::COGS,
    PlType::Salaries,
    PlType::AdministrativeExpenses,
    PlType::ResearchNDevelopment,
    PlType::OtherOverheads,
    PlType::OtherOperativeExpenses,
    PlType::OtherExpenses,
    PlType::ExceptionalItems,
    PlType::GrossProfit,
    PlType::EBITDA,
    PlType::Depreciation,
    PlType::TaxDepreciation,
    PlType::AssetImpairment,
    PlType::LossDivestitures,
    PlType::Amortization,
    PlType::EBITX,
    PlType::InterestRevenue,
    PlType::InterestExpense,
    PlType::CostDebt,
    PlType::OtherFinancialRevenue,
    PlType::EBTX,
    PlType::ExtraordinaryItems,
    PlType::PriorYears,
    PlType::EBT,
    PlType::TaxesCurrent,
    PlType::TaxesDeferred,
    PlType::EAT,
    PlType::NetIncomeDiscontinuedOps,
    PlType::NetIncome,
    PlType::Dividends,
    PlType::ContributionRetainedEarnings,
    PlType::GainsLossesForex,
    PlType::GainsLossesActurial,
    PlType::GrossSalesPPE,
    PlType::GrossSalesLeaseRentalAssets,
    PlType::GrossSalesIntangibleAssets,
    PlType::AccAmortSalesPPE,
    PlType::AccAmortSalesLeaseRental,
    PlType::AccAmortSalesIntangible,
    PlType::SalesAmountPPE,
    PlType::SalesAmountLeaseRentalAssets,
    PlType::SalesAmountIntangibleAssets,
    PlType::GainsLossesSales,
    PlType::FvChangeAvlSale,
    PlType::OtherDeferredTaxes,
    PlType::OtherComprehensiveIncome,
    PlType::TotalComprehensiveIncome,
];

pub const CF_ALL: &[CfType] = &[
    CfType::ChangeCurrentAssets,
    CfType::ChangeLongTermAssets,
    CfType::ChangeCurrentLiabilities,
    CfType::ChangeLongTermLiabilities,
    CfType::ChangeProvisions,
    CfType::ChangeRetainedEarnings,
    CfType::AdjustmentsRetainedEarnings,
    CfType::ChangeAccumulatedOci,
    CfType::OtherCashFlowOperations,
    CfType::CashFlowOperations,
    CfType::ChangePPE,
    CfType::ChangeReserves,
    CfType::AdjustmentsSalesAssets,
    CfType::InvestmentsCapDevp,
    CfType::InvestmentsLoans,
    CfType::ChangeEquityAssets,
    CfType::ChangeInvestments,
    CfType::OtherCashFlowInvestments,
    CfType::CashFlowInvestments,
    CfType::StockSalesAndPurchase,
    CfType::ChangeDebt,
    CfType::CashFlowInterests,
    CfType::CashFlowDividends,
    CfType::DonorContribution,
    CfType::OtherCashFlowFinancing,
    CfType::CashFlowFinancing,
    CfType::NetCashFlow,
    CfType::FreeCashFlowFirm,
    CfType::CashFlowTaxShield,
    CfType::FreeCashFlowEquity,
    CfType::CashFlowDebt,
];

pub const BS_SUMS: &[(BsType, &[BsType], &[BsType])] = &[
    (BsType::Inventories, &[BsType::RawMaterials, BsType::WorkInProgress, BsType::FinishedGoods], &[]),
    (BsType::CurrentAssets, &[BsType::Cash, BsType::CurrentReceivables, BsType::CurrentLoans, BsType::CurrentAdvances, BsType::OtherCurrentAssets, BsType::CurrentInvestments, BsType::Inventories], &[]),
    (BsType::NetPlantPropertyEquipment, &[BsType::PlantPropertyEquipment], &[BsType::AccumulatedDepreciation]),
    (BsType::NetLeaseRentalAssets, &[BsType::LeasingRentalAssets], &[BsType::AccumulatedAmortizationLease]),
    (BsType::NetIntangibleAssets, &[BsType::IntangibleAssets, BsType::IntangibleAssetsDevelopment], &[BsType::AccumulatedAmortization]),
    (BsType::LongTermAssets, &[BsType::AccountReceivables, BsType::LongTermLoanAssets, BsType::LongTermAdvances, BsType::LongTermInvestments, BsType::OtherLongTermAssets, BsType::NetPlantPropertyEquipment, BsType::NetLeaseRentalAssets, BsType::Goodwill, BsType::CapitalWip, BsType::OtherTangibleAssets, BsType::NetIntangibleAssets], &[]),
    (BsType::Assets, &[BsType::CurrentAssets, BsType::LongTermAssets], &[]),
    (BsType::CurrentLiabilities, &[BsType::CurrentPayables, BsType::CurrentBorrowings, BsType::CurrentNotesPayable, BsType::OtherCurrentLiabilities, BsType::InterestPayable, BsType::CurrentProvisions, BsType::CurrentTaxPayables, BsType::LiabilitiesSaleAssets, BsType::CurrentLeasesLiability], &[]),
    (BsType::LongTermLiabilities, &[BsType::AccountPayables, BsType::LongTermBorrowings, BsType::BondsPayable, BsType::DeferredTaxLiabilities, BsType::LongTermLeasesLiability, BsType::DeferredCompensation, BsType::DeferredRevenues, BsType::CustomerDeposits, BsType::OtherLongTermLiabilities, BsType::PensionProvision, BsType::TaxProvision, BsType::LongTermProvision], &[]),
    (BsType::Liabilities, &[BsType::CurrentLiabilities, BsType::LongTermLiabilities], &[]),
    (BsType::Equity, &[BsType::CommonStock, BsType::PreferredStock, BsType::PdInCapAbovePar, BsType::PdInCapTreasuryStock, BsType::RevaluationReserves, BsType::Reserves, BsType::RetainedEarnings, BsType::AccumulatedOCI, BsType::MinorityInterests], &[]),
    (BsType::BalanceSheetCheck, &[BsType::Assets], &[BsType::Liabilities, BsType::Equity]),
];

pub const PL_SUMS: &[(PlType, &[PlType], &[PlType])] = &[
    (PlType::Revenue, &[PlType::OperatingRevenue, PlType::NonOperatingRevenue], &[PlType::ExciseStaxLevy]),
    (PlType::COGS, &[PlType::CostMaterial, PlType::DirectExpenses], &[]),
    (PlType::GrossProfit, &[PlType::Revenue], &[PlType::COGS]),
    (PlType::EBITDA, &[PlType::GrossProfit, PlType::OtherIncome], &[PlType::Salaries, PlType::AdministrativeExpenses, PlType::ResearchNDevelopment, PlType::OtherOverheads, PlType::OtherOperativeExpenses, PlType::OtherExpenses, PlType::ExceptionalItems]),
    (PlType::EBITX, &[PlType::EBITDA], &[PlType::Depreciation, PlType::AssetImpairment, PlType::LossDivestitures, PlType::Amortization]),
    (PlType::EBTX, &[PlType::EBITX, PlType::InterestRevenue, PlType::OtherFinancialRevenue], &[PlType::InterestExpense, PlType::CostDebt]),
    (PlType::EBT, &[PlType::EBTX], &[PlType::ExtraordinaryItems, PlType::PriorYears]),
    (PlType::EAT, &[PlType::EBT], &[PlType::TaxesCurrent, PlType::TaxesDeferred]),
    (PlType::NetIncome, &[PlType::EAT, PlType::NetIncomeDiscontinuedOps], &[]),
    (PlType::ContributionRetainedEarnings, &[PlType::NetIncome], &[PlType::Dividends]),
    (PlType::GainsLossesSales, &[PlType::SalesAmountPPE, PlType::SalesAmountLeaseRentalAssets, PlType::SalesAmountIntangibleAssets, PlType::AccAmortSalesPPE, PlType::AccAmortSalesLeaseRental, PlType::AccAmortSalesIntangible], &[PlType::GrossSalesPPE, PlType::GrossSalesLeaseRentalAssets, PlType::GrossSalesIntangibleAssets]),
    (PlType::OtherComprehensiveIncome, &[PlType::GainsLossesForex, PlType::GainsLossesActurial, PlType::GainsLossesSales, PlType::FvChangeAvlSale], &[PlType::OtherDeferredTaxes]),
    (PlType::TotalComprehensiveIncome, &[PlType::NetIncome, PlType::OtherComprehensiveIncome], &[]),
];

pub const CF_SUMS: &[(CfType, &[CfType], &[CfType])] = &[
    (CfType::CashFlowOperations, &[CfType::ChangeCurrentLiabilities, CfType::ChangeLongTermLiabilities, CfType::ChangeProvisions, CfType::ChangeRetainedEarnings, CfType::AdjustmentsRetainedEarnings, CfType::ChangeAccumulatedOci, CfType::OtherCashFlowOperations], &[CfType::ChangeCurrentAssets, CfType::ChangeLongTermAssets]),
    (CfType::CashFlowInvestments, &[CfType::OtherCashFlowInvestments, CfType::AdjustmentsSalesAssets, CfType::ChangeReserves], &[CfType::ChangePPE, CfType::InvestmentsCapDevp, CfType::InvestmentsLoans, CfType::ChangeEquityAssets, CfType::ChangeInvestments]),
    (CfType::CashFlowFinancing, &[CfType::StockSalesAndPurchase, CfType::ChangeDebt, CfType::DonorContribution, CfType::OtherCashFlowFinancing], &[CfType::CashFlowInterests, CfType::CashFlowDividends]),
    (CfType::NetCashFlow, &[CfType::CashFlowOperations, CfType::CashFlowInvestments, CfType::CashFlowFinancing], &[]),
    (CfType::FreeCashFlowEquity, &[CfType::CashFlowOperations, CfType::ChangeDebt, CfType::ChangeReserves, CfType::AdjustmentsSalesAssets], &[CfType::CashFlowInterests, CfType::ChangePPE]),
    (CfType::CashFlowDebt, &[CfType::CashFlowInterests], &[CfType::ChangeDebt]),
    (CfType::FreeCashFlowFirm, &[CfType::FreeCashFlowEquity, CfType::CashFlowDebt], &[CfType::CashFlowTaxShield]),
];

pub const CF_FROM_BS: &[(CfType, &[BsType], &[BsType])] = &[
    (CfType::ChangeCurrentAssets, &[BsType::CurrentReceivables, BsType::CurrentLoans, BsType::CurrentAdvances, BsType::OtherCurrentAssets, BsType::CurrentInvestments, BsType::RawMaterials, BsType::WorkInProgress, BsType::FinishedGoods], &[]),
    (CfType::ChangeLongTermAssets, &[BsType::AccountReceivables, BsType::LongTermAdvances, BsType::CapitalWip], &[BsType::AccumulatedDepreciation, BsType::AccumulatedAmortizationLease, BsType::AccumulatedAmortization]),
    (CfType::ChangeCurrentLiabilities, &[BsType::CurrentPayables, BsType::CurrentBorrowings, BsType::CurrentNotesPayable, BsType::OtherCurrentLiabilities, BsType::InterestPayable, BsType::CurrentProvisions, BsType::CurrentTaxPayables, BsType::LiabilitiesSaleAssets, BsType::CurrentLeasesLiability], &[]),
    (CfType::ChangeLongTermLiabilities, &[BsType::AccountPayables, BsType::DeferredTaxLiabilities, BsType::DeferredCompensation, BsType::DeferredRevenues, BsType::CustomerDeposits, BsType::OtherLongTermLiabilities], &[]),
    (CfType::ChangeProvisions, &[BsType::PensionProvision, BsType::TaxProvision, BsType::LongTermProvision], &[]),
    (CfType::ChangeRetainedEarnings, &[BsType::RetainedEarnings], &[]),
    (CfType::ChangeAccumulatedOci, &[BsType::AccumulatedOCI], &[]),
    (CfType::ChangePPE, &[BsType::PlantPropertyEquipment, BsType::LeasingRentalAssets], &[]),
    (CfType::ChangeReserves, &[BsType::RevaluationReserves, BsType::Reserves], &[]),
    (CfType::InvestmentsCapDevp, &[BsType::IntangibleAssetsDevelopment], &[]),
    (CfType::InvestmentsLoans, &[BsType::LongTermLoanAssets], &[]),
    (CfType::ChangeEquityAssets, &[BsType::IntangibleAssets], &[]),
    (CfType::ChangeInvestments, &[BsType::LongTermInvestments, BsType::Goodwill], &[]),
    (CfType::OtherCashFlowInvestments, &[], &[BsType::OtherLongTermAssets, BsType::OtherTangibleAssets]),
    (CfType::StockSalesAndPurchase, &[BsType::CommonStock, BsType::PreferredStock, BsType::PdInCapAbovePar, BsType::PdInCapTreasuryStock], &[]),
    (CfType::ChangeDebt, &[BsType::LongTermBorrowings, BsType::BondsPayable, BsType::LongTermLeasesLiability], &[]),
    (CfType::OtherCashFlowFinancing, &[BsType::MinorityInterests], &[]),
];

pub const CF_FROM_PL: &[(CfType, &[PlType], &[PlType])] = &[
    (CfType::CashFlowInterests, &[PlType::InterestExpense, PlType::CostDebt], &[]),
    (CfType::CashFlowDividends, &[PlType::Dividends], &[]),
    (CfType::AdjustmentsRetainedEarnings, &[PlType::InterestExpense, PlType::CostDebt, PlType::Dividends, PlType::AccAmortSalesPPE, PlType::AccAmortSalesLeaseRental, PlType::AccAmortSalesIntangible], &[PlType::GainsLossesSales]),
    (CfType::AdjustmentsSalesAssets, &[PlType::GainsLossesSales], &[PlType::AccAmortSalesPPE, PlType::AccAmortSalesLeaseRental, PlType::AccAmortSalesIntangible]),
];
