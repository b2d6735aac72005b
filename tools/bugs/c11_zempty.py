id='C11-cleared-base-field'
property='C11'
needs='a base field (name, symbol or URI) that the source clears to the empty string after an earlier sync'
what_it_breaks='empty base fields of the source are taken to mean "unchanged" and the old value stays on the wrapped mint'
edits=[('program/src/processor.rs','''        if current_value != new_value {
''','''        if !new_value.is_empty() && current_value != new_value {
''')]
demo=open('/verif/tools/bugs/pre/c11.rs').read()
